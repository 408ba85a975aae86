// Generated by gen_schemas.py, do not edit.
#![allow(clippy::all, dead_code, non_local_definitions)]
use crate::{live::*, model::*};
use std::collections::HashMap;
use steit::{
    rt::{Runtime, SizeCache},
    ser::Serialize,
    state::State,
    steit_derive,
    types::{Bytes, List, Map, Maybe},
};

fn fields(v: &Val) -> &[Val] {
    match v {
        Val::Struct(v) => v,
        _ => panic!("ill-typed"),
    }
}
fn variant_of(v: &Val) -> (u32, &[Val]) {
    match v {
        Val::Enum(tag, v) => (*tag, v),
        _ => panic!("ill-typed"),
    }
}

fn ready_for<T: 'static>(_field: &T, how: How) -> bool {
    ready::<T>(how)
}

macro_rules! live_field {
    ($self:expr, $set:ident, $set_with:ident, $field:expr, $path:expr, $op:expr) => {
        match $op {
            Op::Set(_, how) if $path.len() == 1 && !ready_for(&$field, *how) => None,
            Op::Set(v, how @ (How::Value | How::Hand)) if $path.len() == 1 => {
                $self.$set(by_value(*how, v));
                done(Ret::Unit)
            }
            Op::Set(v, how) if $path.len() == 1 => {
                $self.$set_with(|rt| build_how(*how, rt, v));
                done(Ret::Unit)
            }
            _ => Live::act(&mut $field, &$path[1..], $op),
        }
    };
}

macro_rules! plain_field {
    ($self:expr, $set:ident, $path:expr, $op:expr) => {
        match $op {
            Op::Set(v, How::Value) if $path.len() == 1 => {
                $self.$set(Model::make(v));
                done(Ret::Unit)
            }
            _ => None,
        }
    };
}

macro_rules! variant_field {
    ($self:expr, $ty:ty, $set:ident, $set_with:ident, $pat:pat, $x:ident, $path:expr, $op:expr) => {
        match $op {
            Op::Set(_, how) if $path.len() == 2 && !ready::<$ty>(*how) => None,
            Op::Set(v, how @ (How::Value | How::Hand)) if $path.len() == 2 => {
                $self.$set(by_value(*how, v));
                done(Ret::Unit)
            }
            Op::Set(v, how) if $path.len() == 2 => {
                $self.$set_with(|rt| build_how(*how, rt, v));
                done(Ret::Unit)
            }
            _ => match $self {
                $pat => Live::act($x, &$path[2..], $op),
                #[allow(unreachable_patterns)]
                _ => None,
            },
        }
    };
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct Pt {
    #[steit(tag = 0)]
    pub x: i32,
    #[steit(tag = 1)]
    pub y: i32,
}
impl Model for Pt {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Pt",
                vec![
                    Field {
                        tag: 0,
                        name: "x",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "y",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.x), Model::val(&self.y)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Pt {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            x: Live::build(rt.nested(0), &v[0]),
            y: Live::build(rt.nested(1), &v[1]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_x_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_y_with(|rt| Live::build_mut(rt, &v[1]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_x, set_x_with, self.x, path, op),
            1 => live_field!(self, set_y, set_y_with, self.y, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.x, f);
        Live::visit(&self.y, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.x)?;
        Live::audit(&self.y)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.x, rest, f),
            Some((1, rest)) => Live::at(&mut self.y, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct Mini {
    #[steit(tag = 0)]
    pub n: u8,
}
impl Model for Mini {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Mini",
                vec![Field {
                    tag: 0,
                    name: "n",
                    ty: <u8 as Model>::ty(),
                    state: true,
                }],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.n)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Mini {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            n: Live::build(rt.nested(0), &v[0]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_n_with(|rt| Live::build_mut(rt, &v[0]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_n, set_n_with, self.n, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.n, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.n)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.n, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct Emp {}
impl Model for Emp {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::Struct("Emp", vec![]))
    }
    fn val(&self) -> Val {
        Val::Struct(vec![])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Emp {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        let _ = &mut s;
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
    }
    fn audit(&self) -> Result<(), String> {
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct Unit;
impl Model for Unit {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::Struct("Unit", vec![]))
    }
    fn val(&self) -> Val {
        Val::Struct(vec![])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Unit {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        let _ = &mut s;
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
    }
    fn audit(&self) -> Result<(), String> {
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub enum Sh {
    #[steit(tag = 0)]
    Nil,
    #[steit(tag = 1)]
    Dot {
        #[steit(tag = 2)]
        p: Pt,
        #[steit(tag = 0)]
        on: bool,
    },
    #[steit(tag = 5)]
    PolyLine {
        #[steit(tag = 0)]
        xs: List<Pt>,
        #[steit(tag = 1)]
        n: u16,
    },
    #[steit(tag = 16)]
    Pair(#[steit(tag = 0)] i32, #[steit(tag = 1)] Mini),
    #[steit(tag = 300)]
    Far {
        #[steit(tag = 0)]
        m: Map<u8, i32>,
    },
}
impl Model for Sh {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Sh",
                vec![
                    Variant {
                        tag: 0,
                        name: "Nil",
                        fields: vec![],
                    },
                    Variant {
                        tag: 1,
                        name: "Dot",
                        fields: vec![
                            Field {
                                tag: 2,
                                name: "p",
                                ty: <Pt as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 0,
                                name: "on",
                                ty: <bool as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                    Variant {
                        tag: 5,
                        name: "PolyLine",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "xs",
                                ty: <List<Pt> as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 1,
                                name: "n",
                                ty: <u16 as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                    Variant {
                        tag: 16,
                        name: "Pair",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "f0",
                                ty: <i32 as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 1,
                                name: "f1",
                                ty: <Mini as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                    Variant {
                        tag: 300,
                        name: "Far",
                        fields: vec![Field {
                            tag: 0,
                            name: "m",
                            ty: <Map<u8, i32> as Model>::ty(),
                            state: true,
                        }],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Sh::Nil { .. } => Val::Enum(0, vec![]),
            Sh::Dot { p: x0, on: x1, .. } => Val::Enum(1, vec![Model::val(x0), Model::val(x1)]),
            Sh::PolyLine { xs: x0, n: x1, .. } => {
                Val::Enum(5, vec![Model::val(x0), Model::val(x1)])
            }
            Sh::Pair { 0: x0, 1: x1, .. } => Val::Enum(16, vec![Model::val(x0), Model::val(x1)]),
            Sh::Far { m: x0, .. } => Val::Enum(300, vec![Model::val(x0)]),
        }
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sh {
    fn build(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        let rt = rt.nested(tag);
        match tag {
            0 => Sh::Nil {
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            1 => Sh::Dot {
                p: Live::build(rt.nested(2), &v[0]),
                on: Live::build(rt.nested(0), &v[1]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            5 => Sh::PolyLine {
                xs: Live::build(rt.nested(0), &v[0]),
                n: Live::build(rt.nested(1), &v[1]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            16 => Sh::Pair {
                0: Live::build(rt.nested(0), &v[0]),
                1: Live::build(rt.nested(1), &v[1]),
                2: SizeCache::new(),
                3: rt,
            },
            300 => Sh::Far {
                m: Live::build(rt.nested(0), &v[0]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            _ => panic!("ill-typed"),
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Self::new_nil(rt),
            1 => {
                let mut s = Self::new(rt);
                s.set_dot_p_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_dot_on_with(|rt| Live::build_mut(rt, &v[1]));
                s
            }
            5 => {
                let mut s = Self::new(rt);
                s.set_poly_line_xs_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_poly_line_n_with(|rt| Live::build_mut(rt, &v[1]));
                s
            }
            16 => {
                let mut s = Self::new(rt);
                s.set_pair_f0_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_pair_f1_with(|rt| Live::build_mut(rt, &v[1]));
                s
            }
            300 => {
                let mut s = Self::new(rt);
                s.set_far_m_with(|rt| Live::build_mut(rt, &v[0]));
                s
            }
            _ => panic!("ill-typed"),
        }
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        if path.len() < 2 {
            return None;
        }
        match (path[0], path[1]) {
            (1, 2) => variant_field!(
                self,
                Pt,
                set_dot_p,
                set_dot_p_with,
                Sh::Dot { p: x, .. },
                x,
                path,
                op
            ),
            (1, 0) => variant_field!(
                self,
                bool,
                set_dot_on,
                set_dot_on_with,
                Sh::Dot { on: x, .. },
                x,
                path,
                op
            ),
            (5, 0) => variant_field!(
                self,
                List<Pt>,
                set_poly_line_xs,
                set_poly_line_xs_with,
                Sh::PolyLine { xs: x, .. },
                x,
                path,
                op
            ),
            (5, 1) => variant_field!(
                self,
                u16,
                set_poly_line_n,
                set_poly_line_n_with,
                Sh::PolyLine { n: x, .. },
                x,
                path,
                op
            ),
            (16, 0) => variant_field!(
                self,
                i32,
                set_pair_f0,
                set_pair_f0_with,
                Sh::Pair { 0: x, .. },
                x,
                path,
                op
            ),
            (16, 1) => variant_field!(
                self,
                Mini,
                set_pair_f1,
                set_pair_f1_with,
                Sh::Pair { 1: x, .. },
                x,
                path,
                op
            ),
            (300, 0) => {
                variant_field!(self, Map<u8, i32>, set_far_m, set_far_m_with, Sh::Far { m: x, .. }, x, path, op)
            }
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        match self {
            Sh::Nil { .. } => {}
            Sh::Dot { p: x0, on: x1, .. } => {
                Live::visit(x0, f);
                Live::visit(x1, f);
            }
            Sh::PolyLine { xs: x0, n: x1, .. } => {
                Live::visit(x0, f);
                Live::visit(x1, f);
            }
            Sh::Pair { 0: x0, 1: x1, .. } => {
                Live::visit(x0, f);
                Live::visit(x1, f);
            }
            Sh::Far { m: x0, .. } => {
                Live::visit(x0, f);
            }
        }
    }
    fn audit(&self) -> Result<(), String> {
        match self {
            Sh::Nil { .. } => {}
            Sh::Dot { p: x0, on: x1, .. } => {
                Live::audit(x0)?;
                Live::audit(x1)?;
            }
            Sh::PolyLine { xs: x0, n: x1, .. } => {
                Live::audit(x0)?;
                Live::audit(x1)?;
            }
            Sh::Pair { 0: x0, 1: x1, .. } => {
                Live::audit(x0)?;
                Live::audit(x1)?;
            }
            Sh::Far { m: x0, .. } => {
                Live::audit(x0)?;
            }
        }
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        if path.is_empty() {
            f(self);
            return true;
        }
        if path.len() < 2 {
            return false;
        }
        match (self, path[0], path[1]) {
            (Sh::Dot { p: x, .. }, 1, 2) => Live::at(x, &path[2..], f),
            (Sh::Dot { on: x, .. }, 1, 0) => Live::at(x, &path[2..], f),
            (Sh::PolyLine { xs: x, .. }, 5, 0) => Live::at(x, &path[2..], f),
            (Sh::PolyLine { n: x, .. }, 5, 1) => Live::at(x, &path[2..], f),
            (Sh::Pair { 0: x, .. }, 16, 0) => Live::at(x, &path[2..], f),
            (Sh::Pair { 1: x, .. }, 16, 1) => Live::at(x, &path[2..], f),
            (Sh::Far { m: x, .. }, 300, 0) => Live::at(x, &path[2..], f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Deep {
    #[steit(tag = 16)]
    pub c: bool,
    #[steit(tag = 3)]
    pub a: Pt,
    #[steit(tag = 536870911)]
    pub d: i64,
    #[steit(tag = 15)]
    pub b: u16,
    #[steit(tag = 2)]
    pub l: List<u8>,
    #[steit(tag = 0)]
    pub e: Sh,
    #[steit(tag = 2047)]
    pub m: Map<u16, Pt>,
    #[steit(tag = 2048)]
    pub k: i8,
}
impl Model for Deep {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Deep",
                vec![
                    Field {
                        tag: 16,
                        name: "c",
                        ty: <bool as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 3,
                        name: "a",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 536870911,
                        name: "d",
                        ty: <i64 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 15,
                        name: "b",
                        ty: <u16 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "l",
                        ty: <List<u8> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 0,
                        name: "e",
                        ty: <Sh as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2047,
                        name: "m",
                        ty: <Map<u16, Pt> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2048,
                        name: "k",
                        ty: <i8 as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.c),
            Model::val(&self.a),
            Model::val(&self.d),
            Model::val(&self.b),
            Model::val(&self.l),
            Model::val(&self.e),
            Model::val(&self.m),
            Model::val(&self.k),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Deep {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            c: Live::build(rt.nested(16), &v[0]),
            a: Live::build(rt.nested(3), &v[1]),
            d: Live::build(rt.nested(536870911), &v[2]),
            b: Live::build(rt.nested(15), &v[3]),
            l: Live::build(rt.nested(2), &v[4]),
            e: Live::build(rt.nested(0), &v[5]),
            m: Live::build(rt.nested(2047), &v[6]),
            k: Live::build(rt.nested(2048), &v[7]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_c_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_a_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_d_with(|rt| Live::build_mut(rt, &v[2]));
        s.set_b_with(|rt| Live::build_mut(rt, &v[3]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[4]));
        s.set_e_with(|rt| Live::build_mut(rt, &v[5]));
        s.set_m_with(|rt| Live::build_mut(rt, &v[6]));
        s.set_k_with(|rt| Live::build_mut(rt, &v[7]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            16 => live_field!(self, set_c, set_c_with, self.c, path, op),
            3 => live_field!(self, set_a, set_a_with, self.a, path, op),
            536870911 => live_field!(self, set_d, set_d_with, self.d, path, op),
            15 => live_field!(self, set_b, set_b_with, self.b, path, op),
            2 => live_field!(self, set_l, set_l_with, self.l, path, op),
            0 => live_field!(self, set_e, set_e_with, self.e, path, op),
            2047 => live_field!(self, set_m, set_m_with, self.m, path, op),
            2048 => live_field!(self, set_k, set_k_with, self.k, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.c, f);
        Live::visit(&self.a, f);
        Live::visit(&self.d, f);
        Live::visit(&self.b, f);
        Live::visit(&self.l, f);
        Live::visit(&self.e, f);
        Live::visit(&self.m, f);
        Live::visit(&self.k, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.c)?;
        Live::audit(&self.a)?;
        Live::audit(&self.d)?;
        Live::audit(&self.b)?;
        Live::audit(&self.l)?;
        Live::audit(&self.e)?;
        Live::audit(&self.m)?;
        Live::audit(&self.k)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((16, rest)) => Live::at(&mut self.c, rest, f),
            Some((3, rest)) => Live::at(&mut self.a, rest, f),
            Some((536870911, rest)) => Live::at(&mut self.d, rest, f),
            Some((15, rest)) => Live::at(&mut self.b, rest, f),
            Some((2, rest)) => Live::at(&mut self.l, rest, f),
            Some((0, rest)) => Live::at(&mut self.e, rest, f),
            Some((2047, rest)) => Live::at(&mut self.m, rest, f),
            Some((2048, rest)) => Live::at(&mut self.k, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub enum Tree {
    #[steit(tag = 0)]
    Leaf {
        #[steit(tag = 0)]
        v: i32,
    },
    #[steit(tag = 1)]
    Fork {
        #[steit(tag = 0)]
        l: Box<Tree>,
        #[steit(tag = 1)]
        r: Box<Tree>,
    },
    #[steit(tag = 2)]
    Many(#[steit(tag = 0)] List<Tree>),
}
impl Model for Tree {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Tree",
                vec![
                    Variant {
                        tag: 0,
                        name: "Leaf",
                        fields: vec![Field {
                            tag: 0,
                            name: "v",
                            ty: <i32 as Model>::ty(),
                            state: true,
                        }],
                    },
                    Variant {
                        tag: 1,
                        name: "Fork",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "l",
                                ty: <Box<Tree> as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 1,
                                name: "r",
                                ty: <Box<Tree> as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                    Variant {
                        tag: 2,
                        name: "Many",
                        fields: vec![Field {
                            tag: 0,
                            name: "f0",
                            ty: <List<Tree> as Model>::ty(),
                            state: true,
                        }],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Tree::Leaf { v: x0, .. } => Val::Enum(0, vec![Model::val(x0)]),
            Tree::Fork { l: x0, r: x1, .. } => Val::Enum(1, vec![Model::val(x0), Model::val(x1)]),
            Tree::Many { 0: x0, .. } => Val::Enum(2, vec![Model::val(x0)]),
        }
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Tree {
    fn build(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        let rt = rt.nested(tag);
        match tag {
            0 => Tree::Leaf {
                v: Live::build(rt.nested(0), &v[0]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            1 => Tree::Fork {
                l: Live::build(rt.nested(0), &v[0]),
                r: Live::build(rt.nested(1), &v[1]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            2 => Tree::Many {
                0: Live::build(rt.nested(0), &v[0]),
                1: SizeCache::new(),
                2: rt,
            },
            _ => panic!("ill-typed"),
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => {
                let mut s = Self::new(rt);
                s.set_leaf_v_with(|rt| Live::build_mut(rt, &v[0]));
                s
            }
            1 => {
                let mut s = Self::new(rt);
                s.set_fork_l_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_fork_r_with(|rt| Live::build_mut(rt, &v[1]));
                s
            }
            2 => {
                let mut s = Self::new(rt);
                s.set_many_f0_with(|rt| Live::build_mut(rt, &v[0]));
                s
            }
            _ => panic!("ill-typed"),
        }
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        if path.len() < 2 {
            return None;
        }
        match (path[0], path[1]) {
            (0, 0) => variant_field!(
                self,
                i32,
                set_leaf_v,
                set_leaf_v_with,
                Tree::Leaf { v: x, .. },
                x,
                path,
                op
            ),
            (1, 0) => variant_field!(
                self,
                Box<Tree>,
                set_fork_l,
                set_fork_l_with,
                Tree::Fork { l: x, .. },
                x,
                path,
                op
            ),
            (1, 1) => variant_field!(
                self,
                Box<Tree>,
                set_fork_r,
                set_fork_r_with,
                Tree::Fork { r: x, .. },
                x,
                path,
                op
            ),
            (2, 0) => variant_field!(
                self,
                List<Tree>,
                set_many_f0,
                set_many_f0_with,
                Tree::Many { 0: x, .. },
                x,
                path,
                op
            ),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        match self {
            Tree::Leaf { v: x0, .. } => {
                Live::visit(x0, f);
            }
            Tree::Fork { l: x0, r: x1, .. } => {
                Live::visit(x0, f);
                Live::visit(x1, f);
            }
            Tree::Many { 0: x0, .. } => {
                Live::visit(x0, f);
            }
        }
    }
    fn audit(&self) -> Result<(), String> {
        match self {
            Tree::Leaf { v: x0, .. } => {
                Live::audit(x0)?;
            }
            Tree::Fork { l: x0, r: x1, .. } => {
                Live::audit(x0)?;
                Live::audit(x1)?;
            }
            Tree::Many { 0: x0, .. } => {
                Live::audit(x0)?;
            }
        }
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        if path.is_empty() {
            f(self);
            return true;
        }
        if path.len() < 2 {
            return false;
        }
        match (self, path[0], path[1]) {
            (Tree::Leaf { v: x, .. }, 0, 0) => Live::at(x, &path[2..], f),
            (Tree::Fork { l: x, .. }, 1, 0) => Live::at(x, &path[2..], f),
            (Tree::Fork { r: x, .. }, 1, 1) => Live::at(x, &path[2..], f),
            (Tree::Many { 0: x, .. }, 2, 0) => Live::at(x, &path[2..], f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Opts {
    #[steit(tag = 0)]
    pub m: Maybe<i32>,
    #[steit(tag = 1)]
    pub n: Maybe<Pt>,
    #[steit(tag = 2)]
    pub o: Maybe<List<Mini>>,
    #[steit(tag = 3)]
    pub q: Maybe<Maybe<u8>>,
}
impl Model for Opts {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Opts",
                vec![
                    Field {
                        tag: 0,
                        name: "m",
                        ty: <Maybe<i32> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "n",
                        ty: <Maybe<Pt> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "o",
                        ty: <Maybe<List<Mini>> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 3,
                        name: "q",
                        ty: <Maybe<Maybe<u8>> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.m),
            Model::val(&self.n),
            Model::val(&self.o),
            Model::val(&self.q),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Opts {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            m: Live::build(rt.nested(0), &v[0]),
            n: Live::build(rt.nested(1), &v[1]),
            o: Live::build(rt.nested(2), &v[2]),
            q: Live::build(rt.nested(3), &v[3]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_m_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_n_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_o_with(|rt| Live::build_mut(rt, &v[2]));
        s.set_q_with(|rt| Live::build_mut(rt, &v[3]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_m, set_m_with, self.m, path, op),
            1 => live_field!(self, set_n, set_n_with, self.n, path, op),
            2 => live_field!(self, set_o, set_o_with, self.o, path, op),
            3 => live_field!(self, set_q, set_q_with, self.q, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.m, f);
        Live::visit(&self.n, f);
        Live::visit(&self.o, f);
        Live::visit(&self.q, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.m)?;
        Live::audit(&self.n)?;
        Live::audit(&self.o)?;
        Live::audit(&self.q)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.m, rest, f),
            Some((1, rest)) => Live::at(&mut self.n, rest, f),
            Some((2, rest)) => Live::at(&mut self.o, rest, f),
            Some((3, rest)) => Live::at(&mut self.q, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Gen<T: State> {
    #[steit(tag = 0)]
    pub t: T,
    #[steit(tag = 1)]
    pub ts: List<T>,
    #[steit(tag = 2)]
    pub ms: Map<u8, T>,
}
impl<T: Live> Model for Gen<T> {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Gen",
                vec![
                    Field {
                        tag: 0,
                        name: "t",
                        ty: <T as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "ts",
                        ty: <List<T> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "ms",
                        ty: <Map<u8, T> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.t),
            Model::val(&self.ts),
            Model::val(&self.ms),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl<T: Live> Live for Gen<T> {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            t: Live::build(rt.nested(0), &v[0]),
            ts: Live::build(rt.nested(1), &v[1]),
            ms: Live::build(rt.nested(2), &v[2]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_t_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_ts_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_ms_with(|rt| Live::build_mut(rt, &v[2]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_t, set_t_with, self.t, path, op),
            1 => live_field!(self, set_ts, set_ts_with, self.ts, path, op),
            2 => live_field!(self, set_ms, set_ms_with, self.ms, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.t, f);
        Live::visit(&self.ts, f);
        Live::visit(&self.ms, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.t)?;
        Live::audit(&self.ts)?;
        Live::audit(&self.ms)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.t, rest, f),
            Some((1, rest)) => Live::at(&mut self.ts, rest, f),
            Some((2, rest)) => Live::at(&mut self.ms, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Ns {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1, no_state)]
    pub s: String,
    #[steit(tag = 2)]
    pub p: Pt,
    #[steit(tag = 3, no_state)]
    pub v: Vec<u32>,
    #[steit(tag = 4, no_state)]
    pub q: Pt,
}
impl Model for Ns {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ns",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 3,
                        name: "v",
                        ty: <Vec<u32> as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 4,
                        name: "q",
                        ty: <Pt as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.s),
            Model::val(&self.p),
            Model::val(&self.v),
            Model::val(&self.q),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Ns {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            s: Model::make(&v[1]),
            p: Live::build(rt.nested(2), &v[2]),
            v: Model::make(&v[3]),
            q: Model::make(&v[4]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_s(Model::make(&v[1]));
        s.set_p_with(|rt| Live::build_mut(rt, &v[2]));
        s.set_v(Model::make(&v[3]));
        s.set_q(Model::make(&v[4]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            1 => plain_field!(self, set_s, path, op),
            2 => live_field!(self, set_p, set_p_with, self.p, path, op),
            3 => plain_field!(self, set_v, path, op),
            4 => plain_field!(self, set_q, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.p, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.p)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((2, rest)) => Live::at(&mut self.p, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub enum NsEnum {
    #[steit(tag = 0)]
    One {
        #[steit(tag = 0)]
        a: u8,
        #[steit(tag = 1, no_state)]
        s: String,
    },
    #[steit(tag = 1)]
    Two {
        #[steit(tag = 0, no_state)]
        s: String,
        #[steit(tag = 1)]
        p: Pt,
    },
}
impl Model for NsEnum {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "NsEnum",
                vec![
                    Variant {
                        tag: 0,
                        name: "One",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "a",
                                ty: <u8 as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 1,
                                name: "s",
                                ty: <String as Model>::ty(),
                                state: false,
                            },
                        ],
                    },
                    Variant {
                        tag: 1,
                        name: "Two",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "s",
                                ty: <String as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 1,
                                name: "p",
                                ty: <Pt as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            NsEnum::One { a: x0, s: x1, .. } => Val::Enum(0, vec![Model::val(x0), Model::val(x1)]),
            NsEnum::Two { s: x0, p: x1, .. } => Val::Enum(1, vec![Model::val(x0), Model::val(x1)]),
        }
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for NsEnum {
    fn build(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        let rt = rt.nested(tag);
        match tag {
            0 => NsEnum::One {
                a: Live::build(rt.nested(0), &v[0]),
                s: Model::make(&v[1]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            1 => NsEnum::Two {
                s: Model::make(&v[0]),
                p: Live::build(rt.nested(1), &v[1]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            _ => panic!("ill-typed"),
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => {
                let mut s = Self::new(rt);
                s.set_one_a_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_one_s(Model::make(&v[1]));
                s
            }
            1 => {
                let mut s = Self::new(rt);
                s.set_two_s(Model::make(&v[0]));
                s.set_two_p_with(|rt| Live::build_mut(rt, &v[1]));
                s
            }
            _ => panic!("ill-typed"),
        }
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        if path.len() < 2 {
            return None;
        }
        match (path[0], path[1]) {
            (0, 0) => variant_field!(
                self,
                u8,
                set_one_a,
                set_one_a_with,
                NsEnum::One { a: x, .. },
                x,
                path,
                op
            ),
            (0, 1) => plain_field!(self, set_one_s, &path[1..], op),
            (1, 0) => plain_field!(self, set_two_s, &path[1..], op),
            (1, 1) => variant_field!(
                self,
                Pt,
                set_two_p,
                set_two_p_with,
                NsEnum::Two { p: x, .. },
                x,
                path,
                op
            ),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        match self {
            NsEnum::One { a: x0, .. } => {
                Live::visit(x0, f);
            }
            NsEnum::Two { p: x1, .. } => {
                Live::visit(x1, f);
            }
        }
    }
    fn audit(&self) -> Result<(), String> {
        match self {
            NsEnum::One { a: x0, .. } => {
                Live::audit(x0)?;
            }
            NsEnum::Two { p: x1, .. } => {
                Live::audit(x1)?;
            }
        }
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        if path.is_empty() {
            f(self);
            return true;
        }
        if path.len() < 2 {
            return false;
        }
        match (self, path[0], path[1]) {
            (NsEnum::One { a: x, .. }, 0, 0) => Live::at(x, &path[2..], f),
            (NsEnum::Two { p: x, .. }, 1, 1) => Live::at(x, &path[2..], f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
#[steit(size_cache_renamed = "cached")]
#[steit(runtime_renamed = "rt")]
#[steit(ctor_prefix = "create")]
pub struct Ren {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub p: Pt,
    #[steit(tag = 2)]
    pub l: List<Mini>,
}
impl Model for Ren {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ren",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "l",
                        ty: <List<Mini> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.p),
            Model::val(&self.l),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Ren {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            p: Live::build(rt.nested(1), &v[1]),
            l: Live::build(rt.nested(2), &v[2]),
            cached: SizeCache::new(),
            rt: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::create(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_p_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[2]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            1 => live_field!(self, set_p, set_p_with, self.p, path, op),
            2 => live_field!(self, set_l, set_l_with, self.l, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.p, f);
        Live::visit(&self.l, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.p)?;
        Live::audit(&self.l)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((1, rest)) => Live::at(&mut self.p, rest, f),
            Some((2, rest)) => Live::at(&mut self.l, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
#[steit(no_size_cache)]
pub struct NoSc {
    #[steit(tag = 0)]
    pub x: i32,
    #[steit(tag = 1)]
    pub p: Pt,
    #[steit(tag = 2)]
    pub l: List<Pt>,
}
impl Model for NoSc {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "NoSc",
                vec![
                    Field {
                        tag: 0,
                        name: "x",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "l",
                        ty: <List<Pt> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.x),
            Model::val(&self.p),
            Model::val(&self.l),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for NoSc {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            x: Live::build(rt.nested(0), &v[0]),
            p: Live::build(rt.nested(1), &v[1]),
            l: Live::build(rt.nested(2), &v[2]),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_x_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_p_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[2]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_x, set_x_with, self.x, path, op),
            1 => live_field!(self, set_p, set_p_with, self.p, path, op),
            2 => live_field!(self, set_l, set_l_with, self.l, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.x, f);
        Live::visit(&self.p, f);
        Live::visit(&self.l, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.x)?;
        Live::audit(&self.p)?;
        Live::audit(&self.l)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.x, rest, f),
            Some((1, rest)) => Live::at(&mut self.p, rest, f),
            Some((2, rest)) => Live::at(&mut self.l, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Tup(
    #[steit(tag = 4)] pub i32,
    #[steit(tag = 1)] pub List<u8>,
    #[steit(tag = 0)] pub Pt,
);
impl Model for Tup {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Tup",
                vec![
                    Field {
                        tag: 4,
                        name: "f0",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "f1",
                        ty: <List<u8> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 0,
                        name: "f2",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.0),
            Model::val(&self.1),
            Model::val(&self.2),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Tup {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            0: Live::build(rt.nested(4), &v[0]),
            1: Live::build(rt.nested(1), &v[1]),
            2: Live::build(rt.nested(0), &v[2]),
            3: SizeCache::new(),
            4: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_f0_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_f1_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_f2_with(|rt| Live::build_mut(rt, &v[2]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            4 => live_field!(self, set_f0, set_f0_with, self.0, path, op),
            1 => live_field!(self, set_f1, set_f1_with, self.1, path, op),
            0 => live_field!(self, set_f2, set_f2_with, self.2, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.0, f);
        Live::visit(&self.1, f);
        Live::visit(&self.2, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.0)?;
        Live::audit(&self.1)?;
        Live::audit(&self.2)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((4, rest)) => Live::at(&mut self.0, rest, f),
            Some((1, rest)) => Live::at(&mut self.1, rest, f),
            Some((0, rest)) => Live::at(&mut self.2, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct Ints {
    #[steit(tag = 0)]
    pub a: u8,
    #[steit(tag = 1)]
    pub b: u16,
    #[steit(tag = 2)]
    pub c: u32,
    #[steit(tag = 3)]
    pub d: u64,
    #[steit(tag = 4)]
    pub e: i8,
    #[steit(tag = 5)]
    pub f: i16,
    #[steit(tag = 6)]
    pub g: i32,
    #[steit(tag = 7)]
    pub h: i64,
    #[steit(tag = 8)]
    pub i: bool,
}
impl Model for Ints {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ints",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <u8 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "b",
                        ty: <u16 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "c",
                        ty: <u32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 3,
                        name: "d",
                        ty: <u64 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 4,
                        name: "e",
                        ty: <i8 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 5,
                        name: "f",
                        ty: <i16 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 6,
                        name: "g",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 7,
                        name: "h",
                        ty: <i64 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 8,
                        name: "i",
                        ty: <bool as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.b),
            Model::val(&self.c),
            Model::val(&self.d),
            Model::val(&self.e),
            Model::val(&self.f),
            Model::val(&self.g),
            Model::val(&self.h),
            Model::val(&self.i),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Ints {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            b: Live::build(rt.nested(1), &v[1]),
            c: Live::build(rt.nested(2), &v[2]),
            d: Live::build(rt.nested(3), &v[3]),
            e: Live::build(rt.nested(4), &v[4]),
            f: Live::build(rt.nested(5), &v[5]),
            g: Live::build(rt.nested(6), &v[6]),
            h: Live::build(rt.nested(7), &v[7]),
            i: Live::build(rt.nested(8), &v[8]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_b_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_c_with(|rt| Live::build_mut(rt, &v[2]));
        s.set_d_with(|rt| Live::build_mut(rt, &v[3]));
        s.set_e_with(|rt| Live::build_mut(rt, &v[4]));
        s.set_f_with(|rt| Live::build_mut(rt, &v[5]));
        s.set_g_with(|rt| Live::build_mut(rt, &v[6]));
        s.set_h_with(|rt| Live::build_mut(rt, &v[7]));
        s.set_i_with(|rt| Live::build_mut(rt, &v[8]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            1 => live_field!(self, set_b, set_b_with, self.b, path, op),
            2 => live_field!(self, set_c, set_c_with, self.c, path, op),
            3 => live_field!(self, set_d, set_d_with, self.d, path, op),
            4 => live_field!(self, set_e, set_e_with, self.e, path, op),
            5 => live_field!(self, set_f, set_f_with, self.f, path, op),
            6 => live_field!(self, set_g, set_g_with, self.g, path, op),
            7 => live_field!(self, set_h, set_h_with, self.h, path, op),
            8 => live_field!(self, set_i, set_i_with, self.i, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.b, f);
        Live::visit(&self.c, f);
        Live::visit(&self.d, f);
        Live::visit(&self.e, f);
        Live::visit(&self.f, f);
        Live::visit(&self.g, f);
        Live::visit(&self.h, f);
        Live::visit(&self.i, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.b)?;
        Live::audit(&self.c)?;
        Live::audit(&self.d)?;
        Live::audit(&self.e)?;
        Live::audit(&self.f)?;
        Live::audit(&self.g)?;
        Live::audit(&self.h)?;
        Live::audit(&self.i)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((1, rest)) => Live::at(&mut self.b, rest, f),
            Some((2, rest)) => Live::at(&mut self.c, rest, f),
            Some((3, rest)) => Live::at(&mut self.d, rest, f),
            Some((4, rest)) => Live::at(&mut self.e, rest, f),
            Some((5, rest)) => Live::at(&mut self.f, rest, f),
            Some((6, rest)) => Live::at(&mut self.g, rest, f),
            Some((7, rest)) => Live::at(&mut self.h, rest, f),
            Some((8, rest)) => Live::at(&mut self.i, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
#[steit(runtime_renamed = "rt")]
#[steit(ctor_prefix = "create")]
pub enum EnR {
    #[steit(tag = 0, no_size_cache, runtime_renamed = "rt0")]
    Off {},
    #[steit(tag = 2, size_cache_renamed = "sc")]
    OnState {
        #[steit(tag = 0)]
        p: Pt,
        #[steit(tag = 1)]
        k: u8,
    },
    #[steit(tag = 3, no_size_cache)]
    Raw(#[steit(tag = 7)] List<Mini>),
}
impl Model for EnR {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "EnR",
                vec![
                    Variant {
                        tag: 0,
                        name: "Off",
                        fields: vec![],
                    },
                    Variant {
                        tag: 2,
                        name: "OnState",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "p",
                                ty: <Pt as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 1,
                                name: "k",
                                ty: <u8 as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                    Variant {
                        tag: 3,
                        name: "Raw",
                        fields: vec![Field {
                            tag: 7,
                            name: "f0",
                            ty: <List<Mini> as Model>::ty(),
                            state: true,
                        }],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            EnR::Off { .. } => Val::Enum(0, vec![]),
            EnR::OnState { p: x0, k: x1, .. } => Val::Enum(2, vec![Model::val(x0), Model::val(x1)]),
            EnR::Raw { 0: x0, .. } => Val::Enum(3, vec![Model::val(x0)]),
        }
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for EnR {
    fn build(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        let rt = rt.nested(tag);
        match tag {
            0 => EnR::Off { rt0: rt },
            2 => EnR::OnState {
                p: Live::build(rt.nested(0), &v[0]),
                k: Live::build(rt.nested(1), &v[1]),
                sc: SizeCache::new(),
                rt: rt,
            },
            3 => EnR::Raw {
                0: Live::build(rt.nested(7), &v[0]),
                1: rt,
            },
            _ => panic!("ill-typed"),
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Self::create_off(rt),
            2 => {
                let mut s = Self::create(rt);
                s.set_on_state_p_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_on_state_k_with(|rt| Live::build_mut(rt, &v[1]));
                s
            }
            3 => {
                let mut s = Self::create(rt);
                s.set_raw_f0_with(|rt| Live::build_mut(rt, &v[0]));
                s
            }
            _ => panic!("ill-typed"),
        }
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        if path.len() < 2 {
            return None;
        }
        match (path[0], path[1]) {
            (2, 0) => variant_field!(
                self,
                Pt,
                set_on_state_p,
                set_on_state_p_with,
                EnR::OnState { p: x, .. },
                x,
                path,
                op
            ),
            (2, 1) => variant_field!(
                self,
                u8,
                set_on_state_k,
                set_on_state_k_with,
                EnR::OnState { k: x, .. },
                x,
                path,
                op
            ),
            (3, 7) => variant_field!(
                self,
                List<Mini>,
                set_raw_f0,
                set_raw_f0_with,
                EnR::Raw { 0: x, .. },
                x,
                path,
                op
            ),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        match self {
            EnR::Off { .. } => {}
            EnR::OnState { p: x0, k: x1, .. } => {
                Live::visit(x0, f);
                Live::visit(x1, f);
            }
            EnR::Raw { 0: x0, .. } => {
                Live::visit(x0, f);
            }
        }
    }
    fn audit(&self) -> Result<(), String> {
        match self {
            EnR::Off { .. } => {}
            EnR::OnState { p: x0, k: x1, .. } => {
                Live::audit(x0)?;
                Live::audit(x1)?;
            }
            EnR::Raw { 0: x0, .. } => {
                Live::audit(x0)?;
            }
        }
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        if path.is_empty() {
            f(self);
            return true;
        }
        if path.len() < 2 {
            return false;
        }
        match (self, path[0], path[1]) {
            (EnR::OnState { p: x, .. }, 2, 0) => Live::at(x, &path[2..], f),
            (EnR::OnState { k: x, .. }, 2, 1) => Live::at(x, &path[2..], f),
            (EnR::Raw { 0: x, .. }, 3, 7) => Live::at(x, &path[2..], f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub enum Switch {
    #[steit(tag = 0)]
    Off,
    #[steit(tag = 1)]
    On,
}
impl Model for Switch {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Switch",
                vec![
                    Variant {
                        tag: 0,
                        name: "Off",
                        fields: vec![],
                    },
                    Variant {
                        tag: 1,
                        name: "On",
                        fields: vec![],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Switch::Off { .. } => Val::Enum(0, vec![]),
            Switch::On { .. } => Val::Enum(1, vec![]),
        }
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Switch {
    fn build(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        let rt = rt.nested(tag);
        match tag {
            0 => Switch::Off {
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            1 => Switch::On {
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            _ => panic!("ill-typed"),
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Self::new_off(rt),
            1 => Self::new_on(rt),
            _ => panic!("ill-typed"),
        }
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        if path.len() < 2 {
            return None;
        }
        match (path[0], path[1]) {
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        match self {
            Switch::Off { .. } => {}
            Switch::On { .. } => {}
        }
    }
    fn audit(&self) -> Result<(), String> {
        match self {
            Switch::Off { .. } => {}
            Switch::On { .. } => {}
        }
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        if path.is_empty() {
            f(self);
            return true;
        }
        if path.len() < 2 {
            return false;
        }
        match (self, path[0], path[1]) {
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Nest {
    #[steit(tag = 0)]
    pub e: EnR,
    #[steit(tag = 1)]
    pub s: Switch,
    #[steit(tag = 2)]
    pub b: Box<Pt>,
    #[steit(tag = 3)]
    pub bs: Box<Sh>,
    #[steit(tag = 4)]
    pub u: Unit,
    #[steit(tag = 5)]
    pub ren: Ren,
    #[steit(tag = 6)]
    pub no: NoSc,
    #[steit(tag = 7)]
    pub t: Tup,
    #[steit(tag = 8)]
    pub z: Box<i32>,
}
impl Model for Nest {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Nest",
                vec![
                    Field {
                        tag: 0,
                        name: "e",
                        ty: <EnR as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "s",
                        ty: <Switch as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "b",
                        ty: <Box<Pt> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 3,
                        name: "bs",
                        ty: <Box<Sh> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 4,
                        name: "u",
                        ty: <Unit as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 5,
                        name: "ren",
                        ty: <Ren as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 6,
                        name: "no",
                        ty: <NoSc as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 7,
                        name: "t",
                        ty: <Tup as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 8,
                        name: "z",
                        ty: <Box<i32> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.e),
            Model::val(&self.s),
            Model::val(&self.b),
            Model::val(&self.bs),
            Model::val(&self.u),
            Model::val(&self.ren),
            Model::val(&self.no),
            Model::val(&self.t),
            Model::val(&self.z),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Nest {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            e: Live::build(rt.nested(0), &v[0]),
            s: Live::build(rt.nested(1), &v[1]),
            b: Live::build(rt.nested(2), &v[2]),
            bs: Live::build(rt.nested(3), &v[3]),
            u: Live::build(rt.nested(4), &v[4]),
            ren: Live::build(rt.nested(5), &v[5]),
            no: Live::build(rt.nested(6), &v[6]),
            t: Live::build(rt.nested(7), &v[7]),
            z: Live::build(rt.nested(8), &v[8]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_e_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_s_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_b_with(|rt| Live::build_mut(rt, &v[2]));
        s.set_bs_with(|rt| Live::build_mut(rt, &v[3]));
        s.set_u_with(|rt| Live::build_mut(rt, &v[4]));
        s.set_ren_with(|rt| Live::build_mut(rt, &v[5]));
        s.set_no_with(|rt| Live::build_mut(rt, &v[6]));
        s.set_t_with(|rt| Live::build_mut(rt, &v[7]));
        s.set_z_with(|rt| Live::build_mut(rt, &v[8]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_e, set_e_with, self.e, path, op),
            1 => live_field!(self, set_s, set_s_with, self.s, path, op),
            2 => live_field!(self, set_b, set_b_with, self.b, path, op),
            3 => live_field!(self, set_bs, set_bs_with, self.bs, path, op),
            4 => live_field!(self, set_u, set_u_with, self.u, path, op),
            5 => live_field!(self, set_ren, set_ren_with, self.ren, path, op),
            6 => live_field!(self, set_no, set_no_with, self.no, path, op),
            7 => live_field!(self, set_t, set_t_with, self.t, path, op),
            8 => live_field!(self, set_z, set_z_with, self.z, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.e, f);
        Live::visit(&self.s, f);
        Live::visit(&self.b, f);
        Live::visit(&self.bs, f);
        Live::visit(&self.u, f);
        Live::visit(&self.ren, f);
        Live::visit(&self.no, f);
        Live::visit(&self.t, f);
        Live::visit(&self.z, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.e)?;
        Live::audit(&self.s)?;
        Live::audit(&self.b)?;
        Live::audit(&self.bs)?;
        Live::audit(&self.u)?;
        Live::audit(&self.ren)?;
        Live::audit(&self.no)?;
        Live::audit(&self.t)?;
        Live::audit(&self.z)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.e, rest, f),
            Some((1, rest)) => Live::at(&mut self.s, rest, f),
            Some((2, rest)) => Live::at(&mut self.b, rest, f),
            Some((3, rest)) => Live::at(&mut self.bs, rest, f),
            Some((4, rest)) => Live::at(&mut self.u, rest, f),
            Some((5, rest)) => Live::at(&mut self.ren, rest, f),
            Some((6, rest)) => Live::at(&mut self.no, rest, f),
            Some((7, rest)) => Live::at(&mut self.t, rest, f),
            Some((8, rest)) => Live::at(&mut self.z, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub enum Late {
    #[steit(tag = 9)]
    Far {
        #[steit(tag = 3)]
        q: Box<Box<i32>>,
        #[steit(tag = 1)]
        p: Box<Box<Pt>>,
    },
    #[steit(tag = 0)]
    Base {
        #[steit(tag = 1)]
        n: u8,
    },
    #[steit(tag = 2)]
    More(#[steit(tag = 0)] List<Late>),
}
impl Model for Late {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Late",
                vec![
                    Variant {
                        tag: 9,
                        name: "Far",
                        fields: vec![
                            Field {
                                tag: 3,
                                name: "q",
                                ty: <Box<Box<i32>> as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 1,
                                name: "p",
                                ty: <Box<Box<Pt>> as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                    Variant {
                        tag: 0,
                        name: "Base",
                        fields: vec![Field {
                            tag: 1,
                            name: "n",
                            ty: <u8 as Model>::ty(),
                            state: true,
                        }],
                    },
                    Variant {
                        tag: 2,
                        name: "More",
                        fields: vec![Field {
                            tag: 0,
                            name: "f0",
                            ty: <List<Late> as Model>::ty(),
                            state: true,
                        }],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Late::Far { q: x0, p: x1, .. } => Val::Enum(9, vec![Model::val(x0), Model::val(x1)]),
            Late::Base { n: x0, .. } => Val::Enum(0, vec![Model::val(x0)]),
            Late::More { 0: x0, .. } => Val::Enum(2, vec![Model::val(x0)]),
        }
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Late {
    fn build(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        let rt = rt.nested(tag);
        match tag {
            9 => Late::Far {
                q: Live::build(rt.nested(3), &v[0]),
                p: Live::build(rt.nested(1), &v[1]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            0 => Late::Base {
                n: Live::build(rt.nested(1), &v[0]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            2 => Late::More {
                0: Live::build(rt.nested(0), &v[0]),
                1: SizeCache::new(),
                2: rt,
            },
            _ => panic!("ill-typed"),
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            9 => {
                let mut s = Self::new(rt);
                s.set_far_q_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_far_p_with(|rt| Live::build_mut(rt, &v[1]));
                s
            }
            0 => {
                let mut s = Self::new(rt);
                s.set_base_n_with(|rt| Live::build_mut(rt, &v[0]));
                s
            }
            2 => {
                let mut s = Self::new(rt);
                s.set_more_f0_with(|rt| Live::build_mut(rt, &v[0]));
                s
            }
            _ => panic!("ill-typed"),
        }
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        if path.len() < 2 {
            return None;
        }
        match (path[0], path[1]) {
            (9, 3) => variant_field!(
                self,
                Box<Box<i32>>,
                set_far_q,
                set_far_q_with,
                Late::Far { q: x, .. },
                x,
                path,
                op
            ),
            (9, 1) => variant_field!(
                self,
                Box<Box<Pt>>,
                set_far_p,
                set_far_p_with,
                Late::Far { p: x, .. },
                x,
                path,
                op
            ),
            (0, 1) => variant_field!(
                self,
                u8,
                set_base_n,
                set_base_n_with,
                Late::Base { n: x, .. },
                x,
                path,
                op
            ),
            (2, 0) => variant_field!(
                self,
                List<Late>,
                set_more_f0,
                set_more_f0_with,
                Late::More { 0: x, .. },
                x,
                path,
                op
            ),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        match self {
            Late::Far { q: x0, p: x1, .. } => {
                Live::visit(x0, f);
                Live::visit(x1, f);
            }
            Late::Base { n: x0, .. } => {
                Live::visit(x0, f);
            }
            Late::More { 0: x0, .. } => {
                Live::visit(x0, f);
            }
        }
    }
    fn audit(&self) -> Result<(), String> {
        match self {
            Late::Far { q: x0, p: x1, .. } => {
                Live::audit(x0)?;
                Live::audit(x1)?;
            }
            Late::Base { n: x0, .. } => {
                Live::audit(x0)?;
            }
            Late::More { 0: x0, .. } => {
                Live::audit(x0)?;
            }
        }
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        if path.is_empty() {
            f(self);
            return true;
        }
        if path.len() < 2 {
            return false;
        }
        match (self, path[0], path[1]) {
            (Late::Far { q: x, .. }, 9, 3) => Live::at(x, &path[2..], f),
            (Late::Far { p: x, .. }, 9, 1) => Live::at(x, &path[2..], f),
            (Late::Base { n: x, .. }, 0, 1) => Live::at(x, &path[2..], f),
            (Late::More { 0: x, .. }, 2, 0) => Live::at(x, &path[2..], f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub enum GenE<T: State> {
    #[steit(tag = 0)]
    Zero,
    #[steit(tag = 1)]
    OneOf {
        #[steit(tag = 0)]
        t: T,
    },
    #[steit(tag = 2)]
    Both(#[steit(tag = 0)] T, #[steit(tag = 1)] List<T>),
}
impl<T: Live> Model for GenE<T> {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "GenE",
                vec![
                    Variant {
                        tag: 0,
                        name: "Zero",
                        fields: vec![],
                    },
                    Variant {
                        tag: 1,
                        name: "OneOf",
                        fields: vec![Field {
                            tag: 0,
                            name: "t",
                            ty: <T as Model>::ty(),
                            state: true,
                        }],
                    },
                    Variant {
                        tag: 2,
                        name: "Both",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "f0",
                                ty: <T as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 1,
                                name: "f1",
                                ty: <List<T> as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            GenE::Zero { .. } => Val::Enum(0, vec![]),
            GenE::OneOf { t: x0, .. } => Val::Enum(1, vec![Model::val(x0)]),
            GenE::Both { 0: x0, 1: x1, .. } => Val::Enum(2, vec![Model::val(x0), Model::val(x1)]),
        }
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl<T: Live> Live for GenE<T> {
    fn build(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        let rt = rt.nested(tag);
        match tag {
            0 => GenE::Zero {
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            1 => GenE::OneOf {
                t: Live::build(rt.nested(0), &v[0]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            2 => GenE::Both {
                0: Live::build(rt.nested(0), &v[0]),
                1: Live::build(rt.nested(1), &v[1]),
                2: SizeCache::new(),
                3: rt,
            },
            _ => panic!("ill-typed"),
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Self::new_zero(rt),
            1 => {
                let mut s = Self::new(rt);
                s.set_one_of_t_with(|rt| Live::build_mut(rt, &v[0]));
                s
            }
            2 => {
                let mut s = Self::new(rt);
                s.set_both_f0_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_both_f1_with(|rt| Live::build_mut(rt, &v[1]));
                s
            }
            _ => panic!("ill-typed"),
        }
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        if path.len() < 2 {
            return None;
        }
        match (path[0], path[1]) {
            (1, 0) => variant_field!(
                self,
                T,
                set_one_of_t,
                set_one_of_t_with,
                GenE::OneOf { t: x, .. },
                x,
                path,
                op
            ),
            (2, 0) => variant_field!(
                self,
                T,
                set_both_f0,
                set_both_f0_with,
                GenE::Both { 0: x, .. },
                x,
                path,
                op
            ),
            (2, 1) => variant_field!(
                self,
                List<T>,
                set_both_f1,
                set_both_f1_with,
                GenE::Both { 1: x, .. },
                x,
                path,
                op
            ),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        match self {
            GenE::Zero { .. } => {}
            GenE::OneOf { t: x0, .. } => {
                Live::visit(x0, f);
            }
            GenE::Both { 0: x0, 1: x1, .. } => {
                Live::visit(x0, f);
                Live::visit(x1, f);
            }
        }
    }
    fn audit(&self) -> Result<(), String> {
        match self {
            GenE::Zero { .. } => {}
            GenE::OneOf { t: x0, .. } => {
                Live::audit(x0)?;
            }
            GenE::Both { 0: x0, 1: x1, .. } => {
                Live::audit(x0)?;
                Live::audit(x1)?;
            }
        }
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        if path.is_empty() {
            f(self);
            return true;
        }
        if path.len() < 2 {
            return false;
        }
        match (self, path[0], path[1]) {
            (GenE::OneOf { t: x, .. }, 1, 0) => Live::at(x, &path[2..], f),
            (GenE::Both { 0: x, .. }, 2, 0) => Live::at(x, &path[2..], f),
            (GenE::Both { 1: x, .. }, 2, 1) => Live::at(x, &path[2..], f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct GenB<T: State> {
    #[steit(tag = 1)]
    pub bb: Box<Box<T>>,
    #[steit(tag = 0)]
    pub bl: Box<List<Box<T>>>,
}
impl<T: Live> Model for GenB<T> {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "GenB",
                vec![
                    Field {
                        tag: 1,
                        name: "bb",
                        ty: <Box<Box<T>> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 0,
                        name: "bl",
                        ty: <Box<List<Box<T>>> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.bb), Model::val(&self.bl)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl<T: Live> Live for GenB<T> {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            bb: Live::build(rt.nested(1), &v[0]),
            bl: Live::build(rt.nested(0), &v[1]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_bb_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_bl_with(|rt| Live::build_mut(rt, &v[1]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            1 => live_field!(self, set_bb, set_bb_with, self.bb, path, op),
            0 => live_field!(self, set_bl, set_bl_with, self.bl, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.bb, f);
        Live::visit(&self.bl, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.bb)?;
        Live::audit(&self.bl)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((1, rest)) => Live::at(&mut self.bb, rest, f),
            Some((0, rest)) => Live::at(&mut self.bl, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct Eqs {
    #[steit(tag = 0)]
    pub a: u8,
    #[steit(tag = 1, no_hash)]
    pub h: u8,
    #[steit(tag = 2, no_eq_hash)]
    pub n: u8,
    #[steit(tag = 3)]
    pub p: Pt,
}
impl Model for Eqs {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Eqs",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <u8 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "h",
                        ty: <u8 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "n",
                        ty: <u8 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 3,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.h),
            Model::val(&self.n),
            Model::val(&self.p),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Eqs {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            h: Live::build(rt.nested(1), &v[1]),
            n: Live::build(rt.nested(2), &v[2]),
            p: Live::build(rt.nested(3), &v[3]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_h_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_n_with(|rt| Live::build_mut(rt, &v[2]));
        s.set_p_with(|rt| Live::build_mut(rt, &v[3]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            1 => live_field!(self, set_h, set_h_with, self.h, path, op),
            2 => live_field!(self, set_n, set_n_with, self.n, path, op),
            3 => live_field!(self, set_p, set_p_with, self.p, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.h, f);
        Live::visit(&self.n, f);
        Live::visit(&self.p, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.h)?;
        Live::audit(&self.n)?;
        Live::audit(&self.p)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((1, rest)) => Live::at(&mut self.h, rest, f),
            Some((2, rest)) => Live::at(&mut self.n, rest, f),
            Some((3, rest)) => Live::at(&mut self.p, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct EqsTup(
    #[steit(tag = 1, no_eq_hash)] pub u8,
    #[steit(tag = 0, no_hash)] pub u8,
    #[steit(tag = 2)] pub u8,
);
impl Model for EqsTup {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "EqsTup",
                vec![
                    Field {
                        tag: 1,
                        name: "f0",
                        ty: <u8 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 0,
                        name: "f1",
                        ty: <u8 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "f2",
                        ty: <u8 as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.0),
            Model::val(&self.1),
            Model::val(&self.2),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for EqsTup {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            0: Live::build(rt.nested(1), &v[0]),
            1: Live::build(rt.nested(0), &v[1]),
            2: Live::build(rt.nested(2), &v[2]),
            3: SizeCache::new(),
            4: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_f0_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_f1_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_f2_with(|rt| Live::build_mut(rt, &v[2]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            1 => live_field!(self, set_f0, set_f0_with, self.0, path, op),
            0 => live_field!(self, set_f1, set_f1_with, self.1, path, op),
            2 => live_field!(self, set_f2, set_f2_with, self.2, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.0, f);
        Live::visit(&self.1, f);
        Live::visit(&self.2, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.0)?;
        Live::audit(&self.1)?;
        Live::audit(&self.2)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((1, rest)) => Live::at(&mut self.0, rest, f),
            Some((0, rest)) => Live::at(&mut self.1, rest, f),
            Some((2, rest)) => Live::at(&mut self.2, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub enum EqsEnum {
    #[steit(tag = 0)]
    A {
        #[steit(tag = 0)]
        a: u8,
        #[steit(tag = 1, no_hash)]
        h: u8,
        #[steit(tag = 2, no_eq_hash)]
        n: u8,
    },
    #[steit(tag = 1)]
    B {
        #[steit(tag = 0)]
        a: u8,
        #[steit(tag = 1, no_hash)]
        h: u8,
        #[steit(tag = 2, no_eq_hash)]
        n: u8,
    },
    #[steit(tag = 2)]
    C(#[steit(tag = 0, no_eq_hash)] u8, #[steit(tag = 1)] u8),
    #[steit(tag = 3)]
    D,
}
impl Model for EqsEnum {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "EqsEnum",
                vec![
                    Variant {
                        tag: 0,
                        name: "A",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "a",
                                ty: <u8 as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 1,
                                name: "h",
                                ty: <u8 as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 2,
                                name: "n",
                                ty: <u8 as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                    Variant {
                        tag: 1,
                        name: "B",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "a",
                                ty: <u8 as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 1,
                                name: "h",
                                ty: <u8 as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 2,
                                name: "n",
                                ty: <u8 as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                    Variant {
                        tag: 2,
                        name: "C",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "f0",
                                ty: <u8 as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 1,
                                name: "f1",
                                ty: <u8 as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                    Variant {
                        tag: 3,
                        name: "D",
                        fields: vec![],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            EqsEnum::A {
                a: x0,
                h: x1,
                n: x2,
                ..
            } => Val::Enum(0, vec![Model::val(x0), Model::val(x1), Model::val(x2)]),
            EqsEnum::B {
                a: x0,
                h: x1,
                n: x2,
                ..
            } => Val::Enum(1, vec![Model::val(x0), Model::val(x1), Model::val(x2)]),
            EqsEnum::C { 0: x0, 1: x1, .. } => Val::Enum(2, vec![Model::val(x0), Model::val(x1)]),
            EqsEnum::D { .. } => Val::Enum(3, vec![]),
        }
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for EqsEnum {
    fn build(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        let rt = rt.nested(tag);
        match tag {
            0 => EqsEnum::A {
                a: Live::build(rt.nested(0), &v[0]),
                h: Live::build(rt.nested(1), &v[1]),
                n: Live::build(rt.nested(2), &v[2]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            1 => EqsEnum::B {
                a: Live::build(rt.nested(0), &v[0]),
                h: Live::build(rt.nested(1), &v[1]),
                n: Live::build(rt.nested(2), &v[2]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            2 => EqsEnum::C {
                0: Live::build(rt.nested(0), &v[0]),
                1: Live::build(rt.nested(1), &v[1]),
                2: SizeCache::new(),
                3: rt,
            },
            3 => EqsEnum::D {
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            _ => panic!("ill-typed"),
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => {
                let mut s = Self::new(rt);
                s.set_a_a_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_a_h_with(|rt| Live::build_mut(rt, &v[1]));
                s.set_a_n_with(|rt| Live::build_mut(rt, &v[2]));
                s
            }
            1 => {
                let mut s = Self::new(rt);
                s.set_b_a_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_b_h_with(|rt| Live::build_mut(rt, &v[1]));
                s.set_b_n_with(|rt| Live::build_mut(rt, &v[2]));
                s
            }
            2 => {
                let mut s = Self::new(rt);
                s.set_c_f0_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_c_f1_with(|rt| Live::build_mut(rt, &v[1]));
                s
            }
            3 => Self::new_d(rt),
            _ => panic!("ill-typed"),
        }
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        if path.len() < 2 {
            return None;
        }
        match (path[0], path[1]) {
            (0, 0) => variant_field!(
                self,
                u8,
                set_a_a,
                set_a_a_with,
                EqsEnum::A { a: x, .. },
                x,
                path,
                op
            ),
            (0, 1) => variant_field!(
                self,
                u8,
                set_a_h,
                set_a_h_with,
                EqsEnum::A { h: x, .. },
                x,
                path,
                op
            ),
            (0, 2) => variant_field!(
                self,
                u8,
                set_a_n,
                set_a_n_with,
                EqsEnum::A { n: x, .. },
                x,
                path,
                op
            ),
            (1, 0) => variant_field!(
                self,
                u8,
                set_b_a,
                set_b_a_with,
                EqsEnum::B { a: x, .. },
                x,
                path,
                op
            ),
            (1, 1) => variant_field!(
                self,
                u8,
                set_b_h,
                set_b_h_with,
                EqsEnum::B { h: x, .. },
                x,
                path,
                op
            ),
            (1, 2) => variant_field!(
                self,
                u8,
                set_b_n,
                set_b_n_with,
                EqsEnum::B { n: x, .. },
                x,
                path,
                op
            ),
            (2, 0) => variant_field!(
                self,
                u8,
                set_c_f0,
                set_c_f0_with,
                EqsEnum::C { 0: x, .. },
                x,
                path,
                op
            ),
            (2, 1) => variant_field!(
                self,
                u8,
                set_c_f1,
                set_c_f1_with,
                EqsEnum::C { 1: x, .. },
                x,
                path,
                op
            ),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        match self {
            EqsEnum::A {
                a: x0,
                h: x1,
                n: x2,
                ..
            } => {
                Live::visit(x0, f);
                Live::visit(x1, f);
                Live::visit(x2, f);
            }
            EqsEnum::B {
                a: x0,
                h: x1,
                n: x2,
                ..
            } => {
                Live::visit(x0, f);
                Live::visit(x1, f);
                Live::visit(x2, f);
            }
            EqsEnum::C { 0: x0, 1: x1, .. } => {
                Live::visit(x0, f);
                Live::visit(x1, f);
            }
            EqsEnum::D { .. } => {}
        }
    }
    fn audit(&self) -> Result<(), String> {
        match self {
            EqsEnum::A {
                a: x0,
                h: x1,
                n: x2,
                ..
            } => {
                Live::audit(x0)?;
                Live::audit(x1)?;
                Live::audit(x2)?;
            }
            EqsEnum::B {
                a: x0,
                h: x1,
                n: x2,
                ..
            } => {
                Live::audit(x0)?;
                Live::audit(x1)?;
                Live::audit(x2)?;
            }
            EqsEnum::C { 0: x0, 1: x1, .. } => {
                Live::audit(x0)?;
                Live::audit(x1)?;
            }
            EqsEnum::D { .. } => {}
        }
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        if path.is_empty() {
            f(self);
            return true;
        }
        if path.len() < 2 {
            return false;
        }
        match (self, path[0], path[1]) {
            (EqsEnum::A { a: x, .. }, 0, 0) => Live::at(x, &path[2..], f),
            (EqsEnum::A { h: x, .. }, 0, 1) => Live::at(x, &path[2..], f),
            (EqsEnum::A { n: x, .. }, 0, 2) => Live::at(x, &path[2..], f),
            (EqsEnum::B { a: x, .. }, 1, 0) => Live::at(x, &path[2..], f),
            (EqsEnum::B { h: x, .. }, 1, 1) => Live::at(x, &path[2..], f),
            (EqsEnum::B { n: x, .. }, 1, 2) => Live::at(x, &path[2..], f),
            (EqsEnum::C { 0: x, .. }, 2, 0) => Live::at(x, &path[2..], f),
            (EqsEnum::C { 1: x, .. }, 2, 1) => Live::at(x, &path[2..], f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct EqsPlain {
    #[steit(tag = 0)]
    pub a: u8,
    #[steit(tag = 1, no_hash)]
    pub h: Vec<u8>,
    #[steit(tag = 2, no_eq_hash)]
    pub n: String,
    #[steit(tag = 3, no_hash = true)]
    pub b: bool,
    #[steit(tag = 4, no_eq_hash = false)]
    pub c: bool,
}
impl Model for EqsPlain {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "EqsPlain",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <u8 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 1,
                        name: "h",
                        ty: <Vec<u8> as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "n",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 3,
                        name: "b",
                        ty: <bool as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 4,
                        name: "c",
                        ty: <bool as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.h),
            Model::val(&self.n),
            Model::val(&self.b),
            Model::val(&self.c),
        ])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Model::make(&v[0]),
            h: Model::make(&v[1]),
            n: Model::make(&v[2]),
            b: Model::make(&v[3]),
            c: Model::make(&v[4]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct EqsList {
    #[steit(tag = 0)]
    pub l: List<EqsEnum>,
    #[steit(tag = 1)]
    pub e: Eqs,
}
impl Model for EqsList {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "EqsList",
                vec![
                    Field {
                        tag: 0,
                        name: "l",
                        ty: <List<EqsEnum> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "e",
                        ty: <Eqs as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.l), Model::val(&self.e)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for EqsList {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            l: Live::build(rt.nested(0), &v[0]),
            e: Live::build(rt.nested(1), &v[1]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_l_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_e_with(|rt| Live::build_mut(rt, &v[1]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_l, set_l_with, self.l, path, op),
            1 => live_field!(self, set_e, set_e_with, self.e, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.l, f);
        Live::visit(&self.e, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.l)?;
        Live::audit(&self.e)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.l, rest, f),
            Some((1, rest)) => Live::at(&mut self.e, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub enum EqsKind {
    #[steit(tag = 0)]
    A(
        #[steit(tag = 0, no_hash)] u8,
        #[steit(tag = 1, no_eq_hash)] String,
        #[steit(tag = 2)] u8,
    ),
    #[steit(tag = 1)]
    B {
        #[steit(tag = 0, no_eq_hash)]
        a: Vec<u8>,
    },
    #[steit(tag = 2)]
    C {
        #[steit(tag = 0)]
        a: Vec<u8>,
    },
}
impl Model for EqsKind {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "EqsKind",
                vec![
                    Variant {
                        tag: 0,
                        name: "A",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "f0",
                                ty: <u8 as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 1,
                                name: "f1",
                                ty: <String as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 2,
                                name: "f2",
                                ty: <u8 as Model>::ty(),
                                state: false,
                            },
                        ],
                    },
                    Variant {
                        tag: 1,
                        name: "B",
                        fields: vec![Field {
                            tag: 0,
                            name: "a",
                            ty: <Vec<u8> as Model>::ty(),
                            state: false,
                        }],
                    },
                    Variant {
                        tag: 2,
                        name: "C",
                        fields: vec![Field {
                            tag: 0,
                            name: "a",
                            ty: <Vec<u8> as Model>::ty(),
                            state: false,
                        }],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            EqsKind::A {
                0: x0,
                1: x1,
                2: x2,
                ..
            } => Val::Enum(0, vec![Model::val(x0), Model::val(x1), Model::val(x2)]),
            EqsKind::B { a: x0, .. } => Val::Enum(1, vec![Model::val(x0)]),
            EqsKind::C { a: x0, .. } => Val::Enum(2, vec![Model::val(x0)]),
        }
    }
    fn make(v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => EqsKind::A {
                0: Model::make(&v[0]),
                1: Model::make(&v[1]),
                2: Model::make(&v[2]),
                3: SizeCache::new(),
            },
            1 => EqsKind::B {
                a: Model::make(&v[0]),
                size_cache: SizeCache::new(),
            },
            2 => EqsKind::C {
                a: Model::make(&v[0]),
                size_cache: SizeCache::new(),
            },
            _ => panic!("ill-typed"),
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct EqsGen<T: State> {
    #[steit(tag = 0, no_eq_hash)]
    pub t: T,
    #[steit(tag = 1, no_hash)]
    pub u: T,
    #[steit(tag = 2)]
    pub w: T,
}
impl<T: Live> Model for EqsGen<T> {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "EqsGen",
                vec![
                    Field {
                        tag: 0,
                        name: "t",
                        ty: <T as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "u",
                        ty: <T as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "w",
                        ty: <T as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.t),
            Model::val(&self.u),
            Model::val(&self.w),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl<T: Live> Live for EqsGen<T> {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            t: Live::build(rt.nested(0), &v[0]),
            u: Live::build(rt.nested(1), &v[1]),
            w: Live::build(rt.nested(2), &v[2]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_t_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_u_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_w_with(|rt| Live::build_mut(rt, &v[2]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_t, set_t_with, self.t, path, op),
            1 => live_field!(self, set_u, set_u_with, self.u, path, op),
            2 => live_field!(self, set_w, set_w_with, self.w, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.t, f);
        Live::visit(&self.u, f);
        Live::visit(&self.w, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.t)?;
        Live::audit(&self.u)?;
        Live::audit(&self.w)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.t, rest, f),
            Some((1, rest)) => Live::at(&mut self.u, rest, f),
            Some((2, rest)) => Live::at(&mut self.w, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, State)]
pub struct EqsNone {
    #[steit(tag = 0, no_eq_hash)]
    pub a: u8,
    #[steit(tag = 1, no_state, no_eq_hash)]
    pub s: String,
}
impl Model for EqsNone {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "EqsNone",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <u8 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.a), Model::val(&self.s)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for EqsNone {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            s: Model::make(&v[1]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_s(Model::make(&v[1]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            1 => plain_field!(self, set_s, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Pp {
    #[steit(tag = 0)]
    pub x: i32,
    #[steit(tag = 1)]
    pub y: i32,
}
impl Model for Pp {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Pp",
                vec![
                    Field {
                        tag: 0,
                        name: "x",
                        ty: <i32 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 1,
                        name: "y",
                        ty: <i32 as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.x), Model::val(&self.y)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            x: Model::make(&v[0]),
            y: Model::make(&v[1]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct C1 {
    #[steit(tag = 0)]
    pub a: Vec<i32>,
    #[steit(tag = 1)]
    pub b: Option<i32>,
    #[steit(tag = 2)]
    pub c: String,
    #[steit(tag = 3)]
    pub d: Bytes,
    #[steit(tag = 5)]
    pub f: [u8; 3],
    #[steit(tag = 17)]
    pub g: u64,
}
impl Model for C1 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "C1",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <Vec<i32> as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 1,
                        name: "b",
                        ty: <Option<i32> as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "c",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 3,
                        name: "d",
                        ty: <Bytes as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 5,
                        name: "f",
                        ty: <[u8; 3] as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 17,
                        name: "g",
                        ty: <u64 as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.b),
            Model::val(&self.c),
            Model::val(&self.d),
            Model::val(&self.f),
            Model::val(&self.g),
        ])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Model::make(&v[0]),
            b: Model::make(&v[1]),
            c: Model::make(&v[2]),
            d: Model::make(&v[3]),
            f: Model::make(&v[4]),
            g: Model::make(&v[5]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(no_meta)]
pub struct C2 {
    #[steit(tag = 0)]
    pub v: Vec<Pp>,
    #[steit(tag = 9)]
    pub t: (Pp, String, Vec<u8>),
    #[steit(tag = 1)]
    pub o: Option<Pp>,
    #[steit(tag = 2)]
    pub h: HashMap<u8, String>,
}
impl Model for C2 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "C2",
                vec![
                    Field {
                        tag: 0,
                        name: "v",
                        ty: <Vec<Pp> as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 9,
                        name: "t",
                        ty: <(Pp, String, Vec<u8>) as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 1,
                        name: "o",
                        ty: <Option<Pp> as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "h",
                        ty: <HashMap<u8, String> as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.v),
            Model::val(&self.t),
            Model::val(&self.o),
            Model::val(&self.h),
        ])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            v: Model::make(&v[0]),
            t: Model::make(&v[1]),
            o: Model::make(&v[2]),
            h: Model::make(&v[3]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum C3 {
    #[steit(tag = 0)]
    A,
    #[steit(tag = 1)]
    B {
        #[steit(tag = 0)]
        s: String,
    },
    #[steit(tag = 128)]
    C(#[steit(tag = 0)] Vec<Option<u8>>, #[steit(tag = 1)] Box<C3>),
}
impl Model for C3 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "C3",
                vec![
                    Variant {
                        tag: 0,
                        name: "A",
                        fields: vec![],
                    },
                    Variant {
                        tag: 1,
                        name: "B",
                        fields: vec![Field {
                            tag: 0,
                            name: "s",
                            ty: <String as Model>::ty(),
                            state: false,
                        }],
                    },
                    Variant {
                        tag: 128,
                        name: "C",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "f0",
                                ty: <Vec<Option<u8>> as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 1,
                                name: "f1",
                                ty: <Box<C3> as Model>::ty(),
                                state: false,
                            },
                        ],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            C3::A { .. } => Val::Enum(0, vec![]),
            C3::B { s: x0, .. } => Val::Enum(1, vec![Model::val(x0)]),
            C3::C { 0: x0, 1: x1, .. } => Val::Enum(128, vec![Model::val(x0), Model::val(x1)]),
        }
    }
    fn make(v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => C3::A {
                size_cache: SizeCache::new(),
            },
            1 => C3::B {
                s: Model::make(&v[0]),
                size_cache: SizeCache::new(),
            },
            128 => C3::C {
                0: Model::make(&v[0]),
                1: Model::make(&v[1]),
                2: SizeCache::new(),
            },
            _ => panic!("ill-typed"),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct C4(#[steit(tag = 1)] pub Bytes, #[steit(tag = 0)] pub C3);
impl Model for C4 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "C4",
                vec![
                    Field {
                        tag: 1,
                        name: "f0",
                        ty: <Bytes as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 0,
                        name: "f1",
                        ty: <C3 as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.0), Model::val(&self.1)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            0: Model::make(&v[0]),
            1: Model::make(&v[1]),
            2: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
#[steit(no_size_cache)]
pub struct C5 {
    #[steit(tag = 0)]
    pub p: Box<Pp>,
    #[steit(tag = 1)]
    pub e: C3,
    #[steit(tag = 2)]
    pub z: Box<i64>,
    #[steit(tag = 3)]
    pub v: Vec<C3>,
}
impl Model for C5 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "C5",
                vec![
                    Field {
                        tag: 0,
                        name: "p",
                        ty: <Box<Pp> as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 1,
                        name: "e",
                        ty: <C3 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "z",
                        ty: <Box<i64> as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 3,
                        name: "v",
                        ty: <Vec<C3> as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.p),
            Model::val(&self.e),
            Model::val(&self.z),
            Model::val(&self.v),
        ])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            p: Model::make(&v[0]),
            e: Model::make(&v[1]),
            z: Model::make(&v[2]),
            v: Model::make(&v[3]),
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Blob {
    #[steit(tag = 0)]
    pub b: Bytes,
}
impl Model for Blob {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Blob",
                vec![Field {
                    tag: 0,
                    name: "b",
                    ty: <Bytes as Model>::ty(),
                    state: false,
                }],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.b)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            b: Model::make(&v[0]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
pub struct Text {
    #[steit(tag = 1)]
    pub s: String,
}
impl Model for Text {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Text",
                vec![Field {
                    tag: 1,
                    name: "s",
                    ty: <String as Model>::ty(),
                    state: false,
                }],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.s)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            s: Model::make(&v[0]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub enum Quad {
    #[steit(tag = 0)]
    Zero,
    #[steit(tag = 1)]
    One(#[steit(tag = 0)] i32),
    #[steit(tag = 7)]
    Two {
        #[steit(tag = 2)]
        p: Pt,
        #[steit(tag = 0)]
        l: List<u8>,
    },
}
impl Model for Quad {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Quad",
                vec![
                    Variant {
                        tag: 0,
                        name: "Zero",
                        fields: vec![],
                    },
                    Variant {
                        tag: 1,
                        name: "One",
                        fields: vec![Field {
                            tag: 0,
                            name: "f0",
                            ty: <i32 as Model>::ty(),
                            state: true,
                        }],
                    },
                    Variant {
                        tag: 7,
                        name: "Two",
                        fields: vec![
                            Field {
                                tag: 2,
                                name: "p",
                                ty: <Pt as Model>::ty(),
                                state: true,
                            },
                            Field {
                                tag: 0,
                                name: "l",
                                ty: <List<u8> as Model>::ty(),
                                state: true,
                            },
                        ],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Quad::Zero { .. } => Val::Enum(0, vec![]),
            Quad::One { 0: x0, .. } => Val::Enum(1, vec![Model::val(x0)]),
            Quad::Two { p: x0, l: x1, .. } => Val::Enum(7, vec![Model::val(x0), Model::val(x1)]),
        }
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Quad {
    fn build(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        let rt = rt.nested(tag);
        match tag {
            0 => Quad::Zero {
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            1 => Quad::One {
                0: Live::build(rt.nested(0), &v[0]),
                1: SizeCache::new(),
                2: rt,
            },
            7 => Quad::Two {
                p: Live::build(rt.nested(2), &v[0]),
                l: Live::build(rt.nested(0), &v[1]),
                size_cache: SizeCache::new(),
                runtime: rt,
            },
            _ => panic!("ill-typed"),
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Self::new_zero(rt),
            1 => {
                let mut s = Self::new(rt);
                s.set_one_f0_with(|rt| Live::build_mut(rt, &v[0]));
                s
            }
            7 => {
                let mut s = Self::new(rt);
                s.set_two_p_with(|rt| Live::build_mut(rt, &v[0]));
                s.set_two_l_with(|rt| Live::build_mut(rt, &v[1]));
                s
            }
            _ => panic!("ill-typed"),
        }
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        if path.len() < 2 {
            return None;
        }
        match (path[0], path[1]) {
            (1, 0) => variant_field!(
                self,
                i32,
                set_one_f0,
                set_one_f0_with,
                Quad::One { 0: x, .. },
                x,
                path,
                op
            ),
            (7, 2) => variant_field!(
                self,
                Pt,
                set_two_p,
                set_two_p_with,
                Quad::Two { p: x, .. },
                x,
                path,
                op
            ),
            (7, 0) => variant_field!(
                self,
                List<u8>,
                set_two_l,
                set_two_l_with,
                Quad::Two { l: x, .. },
                x,
                path,
                op
            ),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        match self {
            Quad::Zero { .. } => {}
            Quad::One { 0: x0, .. } => {
                Live::visit(x0, f);
            }
            Quad::Two { p: x0, l: x1, .. } => {
                Live::visit(x0, f);
                Live::visit(x1, f);
            }
        }
    }
    fn audit(&self) -> Result<(), String> {
        match self {
            Quad::Zero { .. } => {}
            Quad::One { 0: x0, .. } => {
                Live::audit(x0)?;
            }
            Quad::Two { p: x0, l: x1, .. } => {
                Live::audit(x0)?;
                Live::audit(x1)?;
            }
        }
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        if path.is_empty() {
            f(self);
            return true;
        }
        if path.len() < 2 {
            return false;
        }
        match (self, path[0], path[1]) {
            (Quad::One { 0: x, .. }, 1, 0) => Live::at(x, &path[2..], f),
            (Quad::Two { p: x, .. }, 7, 2) => Live::at(x, &path[2..], f),
            (Quad::Two { l: x, .. }, 7, 0) => Live::at(x, &path[2..], f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Par {
    #[steit(tag = 0)]
    pub p: Pt,
    #[steit(tag = 1)]
    pub l: List<Pt>,
    #[steit(tag = 2)]
    pub q: Quad,
    #[steit(tag = 3)]
    pub n: Maybe<Pt>,
    #[steit(tag = 16)]
    pub k: List<List<u8>>,
    #[steit(tag = 5)]
    pub b: Box<Quad>,
    #[steit(tag = 200, no_state)]
    pub s: String,
}
impl Model for Par {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Par",
                vec![
                    Field {
                        tag: 0,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "l",
                        ty: <List<Pt> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "q",
                        ty: <Quad as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 3,
                        name: "n",
                        ty: <Maybe<Pt> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 16,
                        name: "k",
                        ty: <List<List<u8>> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 5,
                        name: "b",
                        ty: <Box<Quad> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 200,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.p),
            Model::val(&self.l),
            Model::val(&self.q),
            Model::val(&self.n),
            Model::val(&self.k),
            Model::val(&self.b),
            Model::val(&self.s),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Par {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            p: Live::build(rt.nested(0), &v[0]),
            l: Live::build(rt.nested(1), &v[1]),
            q: Live::build(rt.nested(2), &v[2]),
            n: Live::build(rt.nested(3), &v[3]),
            k: Live::build(rt.nested(16), &v[4]),
            b: Live::build(rt.nested(5), &v[5]),
            s: Model::make(&v[6]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_p_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_q_with(|rt| Live::build_mut(rt, &v[2]));
        s.set_n_with(|rt| Live::build_mut(rt, &v[3]));
        s.set_k_with(|rt| Live::build_mut(rt, &v[4]));
        s.set_b_with(|rt| Live::build_mut(rt, &v[5]));
        s.set_s(Model::make(&v[6]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_p, set_p_with, self.p, path, op),
            1 => live_field!(self, set_l, set_l_with, self.l, path, op),
            2 => live_field!(self, set_q, set_q_with, self.q, path, op),
            3 => live_field!(self, set_n, set_n_with, self.n, path, op),
            16 => live_field!(self, set_k, set_k_with, self.k, path, op),
            5 => live_field!(self, set_b, set_b_with, self.b, path, op),
            200 => plain_field!(self, set_s, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.p, f);
        Live::visit(&self.l, f);
        Live::visit(&self.q, f);
        Live::visit(&self.n, f);
        Live::visit(&self.k, f);
        Live::visit(&self.b, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.p)?;
        Live::audit(&self.l)?;
        Live::audit(&self.q)?;
        Live::audit(&self.n)?;
        Live::audit(&self.k)?;
        Live::audit(&self.b)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.p, rest, f),
            Some((1, rest)) => Live::at(&mut self.l, rest, f),
            Some((2, rest)) => Live::at(&mut self.q, rest, f),
            Some((3, rest)) => Live::at(&mut self.n, rest, f),
            Some((16, rest)) => Live::at(&mut self.k, rest, f),
            Some((5, rest)) => Live::at(&mut self.b, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Wide {
    #[steit(tag = 0)]
    pub a: Pt,
    #[steit(tag = 1)]
    pub b: Box<Pt>,
    #[steit(tag = 2)]
    pub l: List<Pt>,
    #[steit(tag = 4, no_state)]
    pub s: String,
    #[steit(tag = 3, no_state)]
    pub v: Vec<Pp>,
    #[steit(tag = 5)]
    pub n: Maybe<Pt>,
    #[steit(tag = 6)]
    pub e: Quad,
}
impl Model for Wide {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Wide",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "b",
                        ty: <Box<Pt> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "l",
                        ty: <List<Pt> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 4,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 3,
                        name: "v",
                        ty: <Vec<Pp> as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 5,
                        name: "n",
                        ty: <Maybe<Pt> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 6,
                        name: "e",
                        ty: <Quad as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.b),
            Model::val(&self.l),
            Model::val(&self.s),
            Model::val(&self.v),
            Model::val(&self.n),
            Model::val(&self.e),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Wide {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            b: Live::build(rt.nested(1), &v[1]),
            l: Live::build(rt.nested(2), &v[2]),
            s: Model::make(&v[3]),
            v: Model::make(&v[4]),
            n: Live::build(rt.nested(5), &v[5]),
            e: Live::build(rt.nested(6), &v[6]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_b_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[2]));
        s.set_s(Model::make(&v[3]));
        s.set_v(Model::make(&v[4]));
        s.set_n_with(|rt| Live::build_mut(rt, &v[5]));
        s.set_e_with(|rt| Live::build_mut(rt, &v[6]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            1 => live_field!(self, set_b, set_b_with, self.b, path, op),
            2 => live_field!(self, set_l, set_l_with, self.l, path, op),
            4 => plain_field!(self, set_s, path, op),
            3 => plain_field!(self, set_v, path, op),
            5 => live_field!(self, set_n, set_n_with, self.n, path, op),
            6 => live_field!(self, set_e, set_e_with, self.e, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.b, f);
        Live::visit(&self.l, f);
        Live::visit(&self.n, f);
        Live::visit(&self.e, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.b)?;
        Live::audit(&self.l)?;
        Live::audit(&self.n)?;
        Live::audit(&self.e)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((1, rest)) => Live::at(&mut self.b, rest, f),
            Some((2, rest)) => Live::at(&mut self.l, rest, f),
            Some((5, rest)) => Live::at(&mut self.n, rest, f),
            Some((6, rest)) => Live::at(&mut self.e, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev0 {}
impl Model for Ev0 {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::Struct("Ev0", vec![]))
    }
    fn val(&self) -> Val {
        Val::Struct(vec![])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev1 {
    #[steit(tag = 0)]
    pub a: i32,
}
impl Model for Ev1 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev1",
                vec![Field {
                    tag: 0,
                    name: "a",
                    ty: <i32 as Model>::ty(),
                    state: false,
                }],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.a)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Model::make(&v[0]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev2 {
    #[steit(tag = 1)]
    pub p: Pp,
}
impl Model for Ev2 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev2",
                vec![Field {
                    tag: 1,
                    name: "p",
                    ty: <Pp as Model>::ty(),
                    state: false,
                }],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.p)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            p: Model::make(&v[0]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev3 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub p: Pp,
}
impl Model for Ev3 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev3",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pp as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.a), Model::val(&self.p)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Model::make(&v[0]),
            p: Model::make(&v[1]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev4 {
    #[steit(tag = 2)]
    pub s: String,
}
impl Model for Ev4 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev4",
                vec![Field {
                    tag: 2,
                    name: "s",
                    ty: <String as Model>::ty(),
                    state: false,
                }],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.s)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            s: Model::make(&v[0]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev5 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 2)]
    pub s: String,
}
impl Model for Ev5 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev5",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.a), Model::val(&self.s)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Model::make(&v[0]),
            s: Model::make(&v[1]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev6 {
    #[steit(tag = 1)]
    pub p: Pp,
    #[steit(tag = 2)]
    pub s: String,
}
impl Model for Ev6 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev6",
                vec![
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pp as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.p), Model::val(&self.s)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            p: Model::make(&v[0]),
            s: Model::make(&v[1]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev7 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub p: Pp,
    #[steit(tag = 2)]
    pub s: String,
}
impl Model for Ev7 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev7",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pp as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.p),
            Model::val(&self.s),
        ])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Model::make(&v[0]),
            p: Model::make(&v[1]),
            s: Model::make(&v[2]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev8 {
    #[steit(tag = 16)]
    pub v: Vec<i32>,
}
impl Model for Ev8 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev8",
                vec![Field {
                    tag: 16,
                    name: "v",
                    ty: <Vec<i32> as Model>::ty(),
                    state: false,
                }],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.v)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            v: Model::make(&v[0]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev9 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 16)]
    pub v: Vec<i32>,
}
impl Model for Ev9 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev9",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 16,
                        name: "v",
                        ty: <Vec<i32> as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.a), Model::val(&self.v)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Model::make(&v[0]),
            v: Model::make(&v[1]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev10 {
    #[steit(tag = 1)]
    pub p: Pp,
    #[steit(tag = 16)]
    pub v: Vec<i32>,
}
impl Model for Ev10 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev10",
                vec![
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pp as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 16,
                        name: "v",
                        ty: <Vec<i32> as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.p), Model::val(&self.v)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            p: Model::make(&v[0]),
            v: Model::make(&v[1]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev11 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub p: Pp,
    #[steit(tag = 16)]
    pub v: Vec<i32>,
}
impl Model for Ev11 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev11",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pp as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 16,
                        name: "v",
                        ty: <Vec<i32> as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.p),
            Model::val(&self.v),
        ])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Model::make(&v[0]),
            p: Model::make(&v[1]),
            v: Model::make(&v[2]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev12 {
    #[steit(tag = 2)]
    pub s: String,
    #[steit(tag = 16)]
    pub v: Vec<i32>,
}
impl Model for Ev12 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev12",
                vec![
                    Field {
                        tag: 2,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 16,
                        name: "v",
                        ty: <Vec<i32> as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.s), Model::val(&self.v)])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            s: Model::make(&v[0]),
            v: Model::make(&v[1]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev13 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 2)]
    pub s: String,
    #[steit(tag = 16)]
    pub v: Vec<i32>,
}
impl Model for Ev13 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev13",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 16,
                        name: "v",
                        ty: <Vec<i32> as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.s),
            Model::val(&self.v),
        ])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Model::make(&v[0]),
            s: Model::make(&v[1]),
            v: Model::make(&v[2]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev14 {
    #[steit(tag = 1)]
    pub p: Pp,
    #[steit(tag = 2)]
    pub s: String,
    #[steit(tag = 16)]
    pub v: Vec<i32>,
}
impl Model for Ev14 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev14",
                vec![
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pp as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 16,
                        name: "v",
                        ty: <Vec<i32> as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.p),
            Model::val(&self.s),
            Model::val(&self.v),
        ])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            p: Model::make(&v[0]),
            s: Model::make(&v[1]),
            v: Model::make(&v[2]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev15 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub p: Pp,
    #[steit(tag = 2)]
    pub s: String,
    #[steit(tag = 16)]
    pub v: Vec<i32>,
}
impl Model for Ev15 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev15",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pp as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 16,
                        name: "v",
                        ty: <Vec<i32> as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.p),
            Model::val(&self.s),
            Model::val(&self.v),
        ])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Model::make(&v[0]),
            p: Model::make(&v[1]),
            s: Model::make(&v[2]),
            v: Model::make(&v[3]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev16 {
    #[steit(tag = 0)]
    pub a: String,
    #[steit(tag = 1)]
    pub p: u16,
    #[steit(tag = 2)]
    pub s: bool,
    #[steit(tag = 16)]
    pub v: i64,
}
impl Model for Ev16 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev16",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <u16 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "s",
                        ty: <bool as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 16,
                        name: "v",
                        ty: <i64 as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.p),
            Model::val(&self.s),
            Model::val(&self.v),
        ])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Model::make(&v[0]),
            p: Model::make(&v[1]),
            s: Model::make(&v[2]),
            v: Model::make(&v[3]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev17 {
    #[steit(tag = 16)]
    pub v: Vec<i32>,
    #[steit(tag = 2)]
    pub s: String,
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub p: Pp,
}
impl Model for Ev17 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Ev17",
                vec![
                    Field {
                        tag: 16,
                        name: "v",
                        ty: <Vec<i32> as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 2,
                        name: "s",
                        ty: <String as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: false,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pp as Model>::ty(),
                        state: false,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.v),
            Model::val(&self.s),
            Model::val(&self.a),
            Model::val(&self.p),
        ])
    }
    fn make(v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            v: Model::make(&v[0]),
            s: Model::make(&v[1]),
            a: Model::make(&v[2]),
            p: Model::make(&v[3]),
            size_cache: SizeCache::new(),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv0 {}
impl Model for Sv0 {
    fn ty() -> Ty {
        intern::<Self>(|| TyDef::Struct("Sv0", vec![]))
    }
    fn val(&self) -> Val {
        Val::Struct(vec![])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv0 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        let _ = &mut s;
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
    }
    fn audit(&self) -> Result<(), String> {
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv1 {
    #[steit(tag = 0)]
    pub a: i32,
}
impl Model for Sv1 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv1",
                vec![Field {
                    tag: 0,
                    name: "a",
                    ty: <i32 as Model>::ty(),
                    state: true,
                }],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.a)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv1 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv2 {
    #[steit(tag = 1)]
    pub p: Pt,
}
impl Model for Sv2 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv2",
                vec![Field {
                    tag: 1,
                    name: "p",
                    ty: <Pt as Model>::ty(),
                    state: true,
                }],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.p)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv2 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            p: Live::build(rt.nested(1), &v[0]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_p_with(|rt| Live::build_mut(rt, &v[0]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            1 => live_field!(self, set_p, set_p_with, self.p, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.p, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.p)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((1, rest)) => Live::at(&mut self.p, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv3 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub p: Pt,
}
impl Model for Sv3 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv3",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.a), Model::val(&self.p)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv3 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            p: Live::build(rt.nested(1), &v[1]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_p_with(|rt| Live::build_mut(rt, &v[1]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            1 => live_field!(self, set_p, set_p_with, self.p, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.p, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.p)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((1, rest)) => Live::at(&mut self.p, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv4 {
    #[steit(tag = 2)]
    pub m: Map<u8, i32>,
}
impl Model for Sv4 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv4",
                vec![Field {
                    tag: 2,
                    name: "m",
                    ty: <Map<u8, i32> as Model>::ty(),
                    state: true,
                }],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.m)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv4 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            m: Live::build(rt.nested(2), &v[0]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_m_with(|rt| Live::build_mut(rt, &v[0]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            2 => live_field!(self, set_m, set_m_with, self.m, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.m, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.m)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((2, rest)) => Live::at(&mut self.m, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv5 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 2)]
    pub m: Map<u8, i32>,
}
impl Model for Sv5 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv5",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "m",
                        ty: <Map<u8, i32> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.a), Model::val(&self.m)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv5 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            m: Live::build(rt.nested(2), &v[1]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_m_with(|rt| Live::build_mut(rt, &v[1]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            2 => live_field!(self, set_m, set_m_with, self.m, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.m, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.m)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((2, rest)) => Live::at(&mut self.m, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv6 {
    #[steit(tag = 1)]
    pub p: Pt,
    #[steit(tag = 2)]
    pub m: Map<u8, i32>,
}
impl Model for Sv6 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv6",
                vec![
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "m",
                        ty: <Map<u8, i32> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.p), Model::val(&self.m)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv6 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            p: Live::build(rt.nested(1), &v[0]),
            m: Live::build(rt.nested(2), &v[1]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_p_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_m_with(|rt| Live::build_mut(rt, &v[1]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            1 => live_field!(self, set_p, set_p_with, self.p, path, op),
            2 => live_field!(self, set_m, set_m_with, self.m, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.p, f);
        Live::visit(&self.m, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.p)?;
        Live::audit(&self.m)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((1, rest)) => Live::at(&mut self.p, rest, f),
            Some((2, rest)) => Live::at(&mut self.m, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv7 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub p: Pt,
    #[steit(tag = 2)]
    pub m: Map<u8, i32>,
}
impl Model for Sv7 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv7",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "m",
                        ty: <Map<u8, i32> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.p),
            Model::val(&self.m),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv7 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            p: Live::build(rt.nested(1), &v[1]),
            m: Live::build(rt.nested(2), &v[2]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_p_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_m_with(|rt| Live::build_mut(rt, &v[2]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            1 => live_field!(self, set_p, set_p_with, self.p, path, op),
            2 => live_field!(self, set_m, set_m_with, self.m, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.p, f);
        Live::visit(&self.m, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.p)?;
        Live::audit(&self.m)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((1, rest)) => Live::at(&mut self.p, rest, f),
            Some((2, rest)) => Live::at(&mut self.m, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv8 {
    #[steit(tag = 300)]
    pub l: List<Pt>,
}
impl Model for Sv8 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv8",
                vec![Field {
                    tag: 300,
                    name: "l",
                    ty: <List<Pt> as Model>::ty(),
                    state: true,
                }],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.l)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv8 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            l: Live::build(rt.nested(300), &v[0]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_l_with(|rt| Live::build_mut(rt, &v[0]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            300 => live_field!(self, set_l, set_l_with, self.l, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.l, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.l)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((300, rest)) => Live::at(&mut self.l, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv9 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 300)]
    pub l: List<Pt>,
}
impl Model for Sv9 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv9",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 300,
                        name: "l",
                        ty: <List<Pt> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.a), Model::val(&self.l)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv9 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            l: Live::build(rt.nested(300), &v[1]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[1]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            300 => live_field!(self, set_l, set_l_with, self.l, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.l, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.l)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((300, rest)) => Live::at(&mut self.l, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv10 {
    #[steit(tag = 1)]
    pub p: Pt,
    #[steit(tag = 300)]
    pub l: List<Pt>,
}
impl Model for Sv10 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv10",
                vec![
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 300,
                        name: "l",
                        ty: <List<Pt> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.p), Model::val(&self.l)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv10 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            p: Live::build(rt.nested(1), &v[0]),
            l: Live::build(rt.nested(300), &v[1]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_p_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[1]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            1 => live_field!(self, set_p, set_p_with, self.p, path, op),
            300 => live_field!(self, set_l, set_l_with, self.l, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.p, f);
        Live::visit(&self.l, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.p)?;
        Live::audit(&self.l)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((1, rest)) => Live::at(&mut self.p, rest, f),
            Some((300, rest)) => Live::at(&mut self.l, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv11 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub p: Pt,
    #[steit(tag = 300)]
    pub l: List<Pt>,
}
impl Model for Sv11 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv11",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 300,
                        name: "l",
                        ty: <List<Pt> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.p),
            Model::val(&self.l),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv11 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            p: Live::build(rt.nested(1), &v[1]),
            l: Live::build(rt.nested(300), &v[2]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_p_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[2]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            1 => live_field!(self, set_p, set_p_with, self.p, path, op),
            300 => live_field!(self, set_l, set_l_with, self.l, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.p, f);
        Live::visit(&self.l, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.p)?;
        Live::audit(&self.l)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((1, rest)) => Live::at(&mut self.p, rest, f),
            Some((300, rest)) => Live::at(&mut self.l, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv12 {
    #[steit(tag = 2)]
    pub m: Map<u8, i32>,
    #[steit(tag = 300)]
    pub l: List<Pt>,
}
impl Model for Sv12 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv12",
                vec![
                    Field {
                        tag: 2,
                        name: "m",
                        ty: <Map<u8, i32> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 300,
                        name: "l",
                        ty: <List<Pt> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![Model::val(&self.m), Model::val(&self.l)])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv12 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            m: Live::build(rt.nested(2), &v[0]),
            l: Live::build(rt.nested(300), &v[1]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_m_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[1]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            2 => live_field!(self, set_m, set_m_with, self.m, path, op),
            300 => live_field!(self, set_l, set_l_with, self.l, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.m, f);
        Live::visit(&self.l, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.m)?;
        Live::audit(&self.l)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((2, rest)) => Live::at(&mut self.m, rest, f),
            Some((300, rest)) => Live::at(&mut self.l, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv13 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 2)]
    pub m: Map<u8, i32>,
    #[steit(tag = 300)]
    pub l: List<Pt>,
}
impl Model for Sv13 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv13",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "m",
                        ty: <Map<u8, i32> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 300,
                        name: "l",
                        ty: <List<Pt> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.m),
            Model::val(&self.l),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv13 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            m: Live::build(rt.nested(2), &v[1]),
            l: Live::build(rt.nested(300), &v[2]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_m_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[2]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            2 => live_field!(self, set_m, set_m_with, self.m, path, op),
            300 => live_field!(self, set_l, set_l_with, self.l, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.m, f);
        Live::visit(&self.l, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.m)?;
        Live::audit(&self.l)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((2, rest)) => Live::at(&mut self.m, rest, f),
            Some((300, rest)) => Live::at(&mut self.l, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv14 {
    #[steit(tag = 1)]
    pub p: Pt,
    #[steit(tag = 2)]
    pub m: Map<u8, i32>,
    #[steit(tag = 300)]
    pub l: List<Pt>,
}
impl Model for Sv14 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv14",
                vec![
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "m",
                        ty: <Map<u8, i32> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 300,
                        name: "l",
                        ty: <List<Pt> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.p),
            Model::val(&self.m),
            Model::val(&self.l),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv14 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            p: Live::build(rt.nested(1), &v[0]),
            m: Live::build(rt.nested(2), &v[1]),
            l: Live::build(rt.nested(300), &v[2]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_p_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_m_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[2]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            1 => live_field!(self, set_p, set_p_with, self.p, path, op),
            2 => live_field!(self, set_m, set_m_with, self.m, path, op),
            300 => live_field!(self, set_l, set_l_with, self.l, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.p, f);
        Live::visit(&self.m, f);
        Live::visit(&self.l, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.p)?;
        Live::audit(&self.m)?;
        Live::audit(&self.l)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((1, rest)) => Live::at(&mut self.p, rest, f),
            Some((2, rest)) => Live::at(&mut self.m, rest, f),
            Some((300, rest)) => Live::at(&mut self.l, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv15 {
    #[steit(tag = 0)]
    pub a: i32,
    #[steit(tag = 1)]
    pub p: Pt,
    #[steit(tag = 2)]
    pub m: Map<u8, i32>,
    #[steit(tag = 300)]
    pub l: List<Pt>,
}
impl Model for Sv15 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv15",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <i32 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <Pt as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "m",
                        ty: <Map<u8, i32> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 300,
                        name: "l",
                        ty: <List<Pt> as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.p),
            Model::val(&self.m),
            Model::val(&self.l),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv15 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            p: Live::build(rt.nested(1), &v[1]),
            m: Live::build(rt.nested(2), &v[2]),
            l: Live::build(rt.nested(300), &v[3]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_p_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_m_with(|rt| Live::build_mut(rt, &v[2]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[3]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            1 => live_field!(self, set_p, set_p_with, self.p, path, op),
            2 => live_field!(self, set_m, set_m_with, self.m, path, op),
            300 => live_field!(self, set_l, set_l_with, self.l, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.p, f);
        Live::visit(&self.m, f);
        Live::visit(&self.l, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.p)?;
        Live::audit(&self.m)?;
        Live::audit(&self.l)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((1, rest)) => Live::at(&mut self.p, rest, f),
            Some((2, rest)) => Live::at(&mut self.m, rest, f),
            Some((300, rest)) => Live::at(&mut self.l, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, State)]
pub struct Sv16 {
    #[steit(tag = 0)]
    pub a: List<u8>,
    #[steit(tag = 1)]
    pub p: u8,
    #[steit(tag = 2)]
    pub m: bool,
    #[steit(tag = 300)]
    pub l: i16,
}
impl Model for Sv16 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Struct(
                "Sv16",
                vec![
                    Field {
                        tag: 0,
                        name: "a",
                        ty: <List<u8> as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 1,
                        name: "p",
                        ty: <u8 as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 2,
                        name: "m",
                        ty: <bool as Model>::ty(),
                        state: true,
                    },
                    Field {
                        tag: 300,
                        name: "l",
                        ty: <i16 as Model>::ty(),
                        state: true,
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        Val::Struct(vec![
            Model::val(&self.a),
            Model::val(&self.p),
            Model::val(&self.m),
            Model::val(&self.l),
        ])
    }
    fn make(v: &Val) -> Self {
        Self::build(Runtime::default(), v)
    }
}
impl Live for Sv16 {
    fn build(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        Self {
            a: Live::build(rt.nested(0), &v[0]),
            p: Live::build(rt.nested(1), &v[1]),
            m: Live::build(rt.nested(2), &v[2]),
            l: Live::build(rt.nested(300), &v[3]),
            size_cache: SizeCache::new(),
            runtime: rt,
        }
    }
    fn build_mut(rt: Runtime, v: &Val) -> Self {
        let v = fields(v);
        let _ = v;
        let mut s = Self::new(rt);
        s.set_a_with(|rt| Live::build_mut(rt, &v[0]));
        s.set_p_with(|rt| Live::build_mut(rt, &v[1]));
        s.set_m_with(|rt| Live::build_mut(rt, &v[2]));
        s.set_l_with(|rt| Live::build_mut(rt, &v[3]));
        s
    }
    fn act(&mut self, path: &[u32], op: &Op) -> Perform {
        match path.first().copied()? {
            0 => live_field!(self, set_a, set_a_with, self.a, path, op),
            1 => live_field!(self, set_p, set_p_with, self.p, path, op),
            2 => live_field!(self, set_m, set_m_with, self.m, path, op),
            300 => live_field!(self, set_l, set_l_with, self.l, path, op),
            _ => {
                let _ = op;
                None
            }
        }
    }
    fn visit(&self, f: &mut dyn FnMut(Node)) {
        f(Node::Rt(self.runtime()));
        f(Node::Size(self.size_cache()));
        Live::visit(&self.a, f);
        Live::visit(&self.p, f);
        Live::visit(&self.m, f);
        Live::visit(&self.l, f);
    }
    fn audit(&self) -> Result<(), String> {
        Live::audit(&self.a)?;
        Live::audit(&self.p)?;
        Live::audit(&self.m)?;
        Live::audit(&self.l)?;
        Ok(())
    }
    fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool {
        match path.split_first() {
            None => {
                f(self);
                true
            }
            Some((0, rest)) => Live::at(&mut self.a, rest, f),
            Some((1, rest)) => Live::at(&mut self.p, rest, f),
            Some((2, rest)) => Live::at(&mut self.m, rest, f),
            Some((300, rest)) => Live::at(&mut self.l, rest, f),
            _ => false,
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Ee0 {
    #[steit(tag = 0)]
    Zero {},
    #[steit(tag = 1)]
    One {
        #[steit(tag = 0)]
        a: i32,
        #[steit(tag = 1)]
        p: Pp,
        #[steit(tag = 2)]
        s: String,
    },
}
impl Model for Ee0 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Ee0",
                vec![
                    Variant {
                        tag: 0,
                        name: "Zero",
                        fields: vec![],
                    },
                    Variant {
                        tag: 1,
                        name: "One",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "a",
                                ty: <i32 as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 1,
                                name: "p",
                                ty: <Pp as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 2,
                                name: "s",
                                ty: <String as Model>::ty(),
                                state: false,
                            },
                        ],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Ee0::Zero { .. } => Val::Enum(0, vec![]),
            Ee0::One {
                a: x0,
                p: x1,
                s: x2,
                ..
            } => Val::Enum(1, vec![Model::val(x0), Model::val(x1), Model::val(x2)]),
        }
    }
    fn make(v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Ee0::Zero {
                size_cache: SizeCache::new(),
            },
            1 => Ee0::One {
                a: Model::make(&v[0]),
                p: Model::make(&v[1]),
                s: Model::make(&v[2]),
                size_cache: SizeCache::new(),
            },
            _ => panic!("ill-typed"),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Ee1 {
    #[steit(tag = 0)]
    Zero {
        #[steit(tag = 0)]
        a: i32,
    },
    #[steit(tag = 1)]
    One {
        #[steit(tag = 1)]
        p: Pp,
        #[steit(tag = 2)]
        s: String,
    },
}
impl Model for Ee1 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Ee1",
                vec![
                    Variant {
                        tag: 0,
                        name: "Zero",
                        fields: vec![Field {
                            tag: 0,
                            name: "a",
                            ty: <i32 as Model>::ty(),
                            state: false,
                        }],
                    },
                    Variant {
                        tag: 1,
                        name: "One",
                        fields: vec![
                            Field {
                                tag: 1,
                                name: "p",
                                ty: <Pp as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 2,
                                name: "s",
                                ty: <String as Model>::ty(),
                                state: false,
                            },
                        ],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Ee1::Zero { a: x0, .. } => Val::Enum(0, vec![Model::val(x0)]),
            Ee1::One { p: x0, s: x1, .. } => Val::Enum(1, vec![Model::val(x0), Model::val(x1)]),
        }
    }
    fn make(v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Ee1::Zero {
                a: Model::make(&v[0]),
                size_cache: SizeCache::new(),
            },
            1 => Ee1::One {
                p: Model::make(&v[0]),
                s: Model::make(&v[1]),
                size_cache: SizeCache::new(),
            },
            _ => panic!("ill-typed"),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Ee2 {
    #[steit(tag = 0)]
    Zero {
        #[steit(tag = 1)]
        p: Pp,
    },
    #[steit(tag = 1)]
    One {
        #[steit(tag = 0)]
        a: i32,
        #[steit(tag = 2)]
        s: String,
    },
}
impl Model for Ee2 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Ee2",
                vec![
                    Variant {
                        tag: 0,
                        name: "Zero",
                        fields: vec![Field {
                            tag: 1,
                            name: "p",
                            ty: <Pp as Model>::ty(),
                            state: false,
                        }],
                    },
                    Variant {
                        tag: 1,
                        name: "One",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "a",
                                ty: <i32 as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 2,
                                name: "s",
                                ty: <String as Model>::ty(),
                                state: false,
                            },
                        ],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Ee2::Zero { p: x0, .. } => Val::Enum(0, vec![Model::val(x0)]),
            Ee2::One { a: x0, s: x1, .. } => Val::Enum(1, vec![Model::val(x0), Model::val(x1)]),
        }
    }
    fn make(v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Ee2::Zero {
                p: Model::make(&v[0]),
                size_cache: SizeCache::new(),
            },
            1 => Ee2::One {
                a: Model::make(&v[0]),
                s: Model::make(&v[1]),
                size_cache: SizeCache::new(),
            },
            _ => panic!("ill-typed"),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Ee3 {
    #[steit(tag = 0)]
    Zero {
        #[steit(tag = 0)]
        a: i32,
        #[steit(tag = 1)]
        p: Pp,
    },
    #[steit(tag = 1)]
    One {
        #[steit(tag = 2)]
        s: String,
    },
}
impl Model for Ee3 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Ee3",
                vec![
                    Variant {
                        tag: 0,
                        name: "Zero",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "a",
                                ty: <i32 as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 1,
                                name: "p",
                                ty: <Pp as Model>::ty(),
                                state: false,
                            },
                        ],
                    },
                    Variant {
                        tag: 1,
                        name: "One",
                        fields: vec![Field {
                            tag: 2,
                            name: "s",
                            ty: <String as Model>::ty(),
                            state: false,
                        }],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Ee3::Zero { a: x0, p: x1, .. } => Val::Enum(0, vec![Model::val(x0), Model::val(x1)]),
            Ee3::One { s: x0, .. } => Val::Enum(1, vec![Model::val(x0)]),
        }
    }
    fn make(v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Ee3::Zero {
                a: Model::make(&v[0]),
                p: Model::make(&v[1]),
                size_cache: SizeCache::new(),
            },
            1 => Ee3::One {
                s: Model::make(&v[0]),
                size_cache: SizeCache::new(),
            },
            _ => panic!("ill-typed"),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Ee4 {
    #[steit(tag = 0)]
    Zero {
        #[steit(tag = 2)]
        s: String,
    },
    #[steit(tag = 1)]
    One {
        #[steit(tag = 0)]
        a: i32,
        #[steit(tag = 1)]
        p: Pp,
    },
}
impl Model for Ee4 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Ee4",
                vec![
                    Variant {
                        tag: 0,
                        name: "Zero",
                        fields: vec![Field {
                            tag: 2,
                            name: "s",
                            ty: <String as Model>::ty(),
                            state: false,
                        }],
                    },
                    Variant {
                        tag: 1,
                        name: "One",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "a",
                                ty: <i32 as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 1,
                                name: "p",
                                ty: <Pp as Model>::ty(),
                                state: false,
                            },
                        ],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Ee4::Zero { s: x0, .. } => Val::Enum(0, vec![Model::val(x0)]),
            Ee4::One { a: x0, p: x1, .. } => Val::Enum(1, vec![Model::val(x0), Model::val(x1)]),
        }
    }
    fn make(v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Ee4::Zero {
                s: Model::make(&v[0]),
                size_cache: SizeCache::new(),
            },
            1 => Ee4::One {
                a: Model::make(&v[0]),
                p: Model::make(&v[1]),
                size_cache: SizeCache::new(),
            },
            _ => panic!("ill-typed"),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Ee5 {
    #[steit(tag = 0)]
    Zero {
        #[steit(tag = 0)]
        a: i32,
        #[steit(tag = 2)]
        s: String,
    },
    #[steit(tag = 1)]
    One {
        #[steit(tag = 1)]
        p: Pp,
    },
}
impl Model for Ee5 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Ee5",
                vec![
                    Variant {
                        tag: 0,
                        name: "Zero",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "a",
                                ty: <i32 as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 2,
                                name: "s",
                                ty: <String as Model>::ty(),
                                state: false,
                            },
                        ],
                    },
                    Variant {
                        tag: 1,
                        name: "One",
                        fields: vec![Field {
                            tag: 1,
                            name: "p",
                            ty: <Pp as Model>::ty(),
                            state: false,
                        }],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Ee5::Zero { a: x0, s: x1, .. } => Val::Enum(0, vec![Model::val(x0), Model::val(x1)]),
            Ee5::One { p: x0, .. } => Val::Enum(1, vec![Model::val(x0)]),
        }
    }
    fn make(v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Ee5::Zero {
                a: Model::make(&v[0]),
                s: Model::make(&v[1]),
                size_cache: SizeCache::new(),
            },
            1 => Ee5::One {
                p: Model::make(&v[0]),
                size_cache: SizeCache::new(),
            },
            _ => panic!("ill-typed"),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Ee6 {
    #[steit(tag = 0)]
    Zero {
        #[steit(tag = 1)]
        p: Pp,
        #[steit(tag = 2)]
        s: String,
    },
    #[steit(tag = 1)]
    One {
        #[steit(tag = 0)]
        a: i32,
    },
}
impl Model for Ee6 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Ee6",
                vec![
                    Variant {
                        tag: 0,
                        name: "Zero",
                        fields: vec![
                            Field {
                                tag: 1,
                                name: "p",
                                ty: <Pp as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 2,
                                name: "s",
                                ty: <String as Model>::ty(),
                                state: false,
                            },
                        ],
                    },
                    Variant {
                        tag: 1,
                        name: "One",
                        fields: vec![Field {
                            tag: 0,
                            name: "a",
                            ty: <i32 as Model>::ty(),
                            state: false,
                        }],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Ee6::Zero { p: x0, s: x1, .. } => Val::Enum(0, vec![Model::val(x0), Model::val(x1)]),
            Ee6::One { a: x0, .. } => Val::Enum(1, vec![Model::val(x0)]),
        }
    }
    fn make(v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Ee6::Zero {
                p: Model::make(&v[0]),
                s: Model::make(&v[1]),
                size_cache: SizeCache::new(),
            },
            1 => Ee6::One {
                a: Model::make(&v[0]),
                size_cache: SizeCache::new(),
            },
            _ => panic!("ill-typed"),
        }
    }
}

#[steit_derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Ee7 {
    #[steit(tag = 0)]
    Zero {
        #[steit(tag = 0)]
        a: i32,
        #[steit(tag = 1)]
        p: Pp,
        #[steit(tag = 2)]
        s: String,
    },
    #[steit(tag = 1)]
    One {},
}
impl Model for Ee7 {
    fn ty() -> Ty {
        intern::<Self>(|| {
            TyDef::Enum(
                "Ee7",
                vec![
                    Variant {
                        tag: 0,
                        name: "Zero",
                        fields: vec![
                            Field {
                                tag: 0,
                                name: "a",
                                ty: <i32 as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 1,
                                name: "p",
                                ty: <Pp as Model>::ty(),
                                state: false,
                            },
                            Field {
                                tag: 2,
                                name: "s",
                                ty: <String as Model>::ty(),
                                state: false,
                            },
                        ],
                    },
                    Variant {
                        tag: 1,
                        name: "One",
                        fields: vec![],
                    },
                ],
            )
        })
    }
    fn val(&self) -> Val {
        match self {
            Ee7::Zero {
                a: x0,
                p: x1,
                s: x2,
                ..
            } => Val::Enum(0, vec![Model::val(x0), Model::val(x1), Model::val(x2)]),
            Ee7::One { .. } => Val::Enum(1, vec![]),
        }
    }
    fn make(v: &Val) -> Self {
        let (tag, v) = variant_of(v);
        let _ = v;
        match tag {
            0 => Ee7::Zero {
                a: Model::make(&v[0]),
                p: Model::make(&v[1]),
                s: Model::make(&v[2]),
                size_cache: SizeCache::new(),
            },
            1 => Ee7::One {
                size_cache: SizeCache::new(),
            },
            _ => panic!("ill-typed"),
        }
    }
}

macro_rules! for_versions {
    ($m:ident) => {
        $m! { Ev0 Ev1 Ev2 Ev3 Ev4 Ev5 Ev6 Ev7 Ev8 Ev9 Ev10 Ev11 Ev12 Ev13 Ev14 Ev15 Ev16 Ev17 }
    };
}
macro_rules! for_state_versions {
    ($m:ident) => {
        $m! { Sv0 Sv1 Sv2 Sv3 Sv4 Sv5 Sv6 Sv7 Sv8 Sv9 Sv10 Sv11 Sv12 Sv13 Sv14 Sv15 Sv16 }
    };
}
macro_rules! for_enum_versions {
    ($m:ident) => {
        $m! { Ee0 Ee1 Ee2 Ee3 Ee4 Ee5 Ee6 Ee7 }
    };
}
pub(crate) use {for_enum_versions, for_state_versions, for_versions};
/// Calls a macro with all root states.
#[macro_export]
macro_rules! for_roots { ($m:ident) => { $m! { ("Pt", Pt) ("Deep", Deep) ("Sh", Sh) ("Tree", Tree) ("Opts", Opts) ("Gen<i32>", Gen<i32>) ("Gen<Sh>", Gen<Sh>) ("Ns", Ns) ("NsEnum", NsEnum) ("Ren", Ren) ("NoSc", NoSc) ("Tup", Tup) ("Ints", Ints) ("EnR", EnR) ("Nest", Nest) ("GenE<Pt>", GenE<Pt>) ("Switch", Switch) ("Emp", Emp) ("Late", Late) ("List<i32>", List<i32>) ("List<bool>", List<bool>) ("List<Pt>", List<Pt>) ("List<Sh>", List<Sh>) ("List<EnR>", List<EnR>) ("List<List<u8>>", List<List<u8>>) ("List<Maybe<i32>>", List<Maybe<i32>>) ("List<Box<Sh>>", List<Box<Sh>>) ("List<Emp>", List<Emp>) ("List<Map<u8,Pt>>", List<Map<u8, Pt>>) ("List<Box<i32>>", List<Box<i32>>) ("List<Tree>", List<Tree>) ("List<NoSc>", List<NoSc>) ("List<Ren>", List<Ren>) ("List<GenE<Pt>>", List<GenE<Pt>>) ("Map<u8,i32>", Map<u8, i32>) ("Map<u16,Pt>", Map<u16, Pt>) ("Map<u32,Sh>", Map<u32, Sh>) ("Map<u8,Map<u16,List<u8>>>", Map<u8, Map<u16, List<u8>>>) ("Map<u8,Maybe<Pt>>", Map<u8, Maybe<Pt>>) ("Map<u16,Emp>", Map<u16, Emp>) ("Map<u8,List<Sh>>", Map<u8, List<Sh>>) ("Map<u32,bool>", Map<u32, bool>) ("Map<u8,Box<EnR>>", Map<u8, Box<EnR>>) ("Map<u16,NoSc>", Map<u16, NoSc>) ("Map<u8,Tree>", Map<u8, Tree>) ("Box<Sh>", Box<Sh>) ("Box<Pt>", Box<Pt>) ("Maybe<Pt>", Maybe<Pt>) ("Maybe<Sh>", Maybe<Sh>) ("Maybe<List<Pt>>", Maybe<List<Pt>>) ("Maybe<Maybe<i32>>", Maybe<Maybe<i32>>) ("Box<Maybe<i32>>", Box<Maybe<i32>>) ("List<Gen<u8>>", List<Gen<u8>>) ("Map<u8,Late>", Map<u8, Late>) ("GenB<u8>", GenB<u8>) ("GenB<Pt>", GenB<Pt>) } } }
/// Calls a macro with root states to be compared.
#[macro_export]
macro_rules! for_eqs { ($m:ident) => { $m! { ("Mini", Mini) ("Unit", Unit) ("Eqs", Eqs) ("EqsTup", EqsTup) ("EqsEnum", EqsEnum) ("EqsList", EqsList) ("EqsGen<u8>", EqsGen<u8>) ("EqsGen<Pt>", EqsGen<Pt>) ("EqsNone", EqsNone) ("List<Eqs>", List<Eqs>) ("Map<u8,Eqs>", Map<u8, Eqs>) ("Map<u16,EqsEnum>", Map<u16, EqsEnum>) ("Maybe<Eqs>", Maybe<Eqs>) ("Box<EqsEnum>", Box<EqsEnum>) ("List<Box<EqsTup>>", List<Box<EqsTup>>) ("List<Maybe<EqsGen<u8>>>", List<Maybe<EqsGen<u8>>>) } } }
/// Calls a macro with types which can be hashed.
#[macro_export]
macro_rules! for_hashed { ($m:ident) => { $m! { ("Mini", Mini) ("Unit", Unit) ("Eqs", Eqs) ("EqsTup", EqsTup) ("EqsEnum", EqsEnum) ("EqsList", EqsList) ("EqsGen<u8>", EqsGen<u8>) ("EqsGen<Pt>", EqsGen<Pt>) ("EqsNone", EqsNone) ("List<Eqs>", List<Eqs>) ("Maybe<Eqs>", Maybe<Eqs>) ("Box<EqsEnum>", Box<EqsEnum>) ("List<Box<EqsTup>>", List<Box<EqsTup>>) ("List<Maybe<EqsGen<u8>>>", List<Maybe<EqsGen<u8>>>) ("Pt", Pt) ("Emp", Emp) ("Switch", Switch) ("Ints", Ints) ("EqsPlain", EqsPlain) ("EqsKind", EqsKind) ("Pp", Pp) ("Blob", Blob) ("Text", Text) ("List<i32>", List<i32>) ("List<bool>", List<bool>) ("List<Pt>", List<Pt>) ("List<List<u8>>", List<List<u8>>) ("List<Maybe<i32>>", List<Maybe<i32>>) ("List<Emp>", List<Emp>) ("List<Box<i32>>", List<Box<i32>>) ("Maybe<Pt>", Maybe<Pt>) ("Maybe<List<Pt>>", Maybe<List<Pt>>) ("Maybe<Maybe<i32>>", Maybe<Maybe<i32>>) ("Box<Pt>", Box<Pt>) ("Box<Maybe<i32>>", Box<Maybe<i32>>) ("Bytes", Bytes) ("Vec<Pp>", Vec<Pp>) ("Option<Bytes>", Option<Bytes>) ("Box<Pp>", Box<Pp>) ("Vec<Bytes>", Vec<Bytes>) } } }
/// Calls a macro with all values which aren't states.
#[macro_export]
macro_rules! for_codecs { ($m:ident) => { $m! { ("u8", u8) ("u16", u16) ("u32", u32) ("u64", u64) ("i8", i8) ("i16", i16) ("i32", i32) ("i64", i64) ("bool", bool) ("String", String) ("Bytes", Bytes) ("Vec<u8>", Vec<u8>) ("Vec<i32>", Vec<i32>) ("Vec<Vec<u8>>", Vec<Vec<u8>>) ("Vec<String>", Vec<String>) ("Vec<Option<u8>>", Vec<Option<u8>>) ("Vec<bool>", Vec<bool>) ("Vec<Pp>", Vec<Pp>) ("Vec<C3>", Vec<C3>) ("Option<u8>", Option<u8>) ("Option<Option<u8>>", Option<Option<u8>>) ("Option<String>", Option<String>) ("Option<Pp>", Option<Pp>) ("Option<Vec<u8>>", Option<Vec<u8>>) ("Option<(u8,u8)>", Option<(u8, u8)>) ("[u8;1]", [u8; 1]) ("[i32;2]", [i32; 2]) ("[String;3]", [String; 3]) ("[Pp;2]", [Pp; 2]) ("[Vec<u8>;2]", [Vec<u8>; 2]) ("[u8;7]", [u8; 7]) ("[bool;4]", [bool; 4]) ("[u16;5]", [u16; 5]) ("[i8;6]", [i8; 6]) ("[Option<u8>;2]", [Option<u8>; 2]) ("Vec<[u8;2]>", Vec<[u8; 2]>) ("(u8,i32)", (u8, i32)) ("(String,u8)", (String, u8)) ("(Pp,String,bool)", (Pp, String, bool)) ("(u8,u8,u8,u8)", (u8, u8, u8, u8)) ("(u8,String,u8,Vec<u8>,i32)", (u8, String, u8, Vec<u8>, i32)) ("(u8,u8,u8,u8,u8,bool)", (u8, u8, u8, u8, u8, bool)) ("(bool,u8,i8,u16,String,u8,u64)", (bool, u8, i8, u16, String, u8, u64)) ("Vec<(u8,String)>", Vec<(u8, String)>) ("((u8,u8),[u8;2])", ((u8, u8), [u8; 2])) ("HashMap<u8,u8>", HashMap<u8, u8>) ("HashMap<String,bool>", HashMap<String, bool>) ("HashMap<u16,Vec<u8>>", HashMap<u16, Vec<u8>>) ("HashMap<u8,Pp>", HashMap<u8, Pp>) ("HashMap<Pp,Option<u8>>", HashMap<Pp, Option<u8>>) ("Vec<HashMap<u8,u8>>", Vec<HashMap<u8, u8>>) ("Box<u8>", Box<u8>) ("Box<Pp>", Box<Pp>) ("Vec<Box<C3>>", Vec<Box<C3>>) ("Pp", Pp) ("C1", C1) ("C2", C2) ("C3", C3) ("C4", C4) ("C5", C5) ("Blob", Blob) ("Text", Text) ("EqsPlain", EqsPlain) ("EqsKind", EqsKind) ("Option<Bytes>", Option<Bytes>) ("Vec<Bytes>", Vec<Bytes>) ("Vec<u64>", Vec<u64>) ("Option<i64>", Option<i64>) } } }
