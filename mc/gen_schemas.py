#!/usr/bin/env python3
"""Generates src/schemas.rs: Rust types deriving steit's traits, and their bindings to the reference model."""
import itertools, re
out = []
W = out.append

def snake(name):
    return re.sub(r'(?<!^)([A-Z])', r'_\1', name).lower()

class F:
    def __init__(s, tag, name, ty, state=True, attrs=()):
        s.tag, s.name, s.ty, s.state, s.attrs = tag, name, ty, state, attrs

def attr(f, state):
    a = ['tag = %d' % f.tag]
    if state and not f.state: a.append('no_state')
    a += list(f.attrs)
    return '#[steit(%s)]' % ', '.join(a)

def generics(params, bound):
    if not params: return '', ''
    return '<%s>' % ', '.join('%s: %s' % (p, bound) for p in params), '<%s>' % ', '.join(params)

def field_defs(fields, state):
    return 'vec![%s]' % ', '.join(
        'Field { tag: %d, name: "%s", ty: <%s as Model>::ty(), state: %s }' %
        (f.tag, f.name, f.ty, 'true' if (f.state and state) else 'false') for f in fields)

def struct(name, fields, state=True, derives=('Clone', 'PartialEq', 'Debug'), attrs=(), tuple_=False, unit=False,
           params=(), size='size_cache', rt='runtime', ctor='new'):
    ders = list(derives) + (['State'] if state else ['Serialize', 'Deserialize'])
    W('#[steit_derive(%s)]' % ', '.join(ders))
    for a in attrs: W('#[steit(%s)]' % a)
    if state: bound = 'Live'
    else: bound = 'Model'
    # the derive adds its own bounds to its impls; struct definitions need State for containers
    g, u = generics(params, bound)
    dg = ('<%s>' % ', '.join('%s: State' % p for p in params)) if params else ''
    if unit: W('pub struct %s%s;' % (name, dg))
    elif tuple_: W('pub struct %s%s(%s);' % (name, dg, ', '.join('%s pub %s' % (attr(f, state), f.ty) for f in fields)))
    else: W('pub struct %s%s { %s }' % (name, dg, ', '.join('%s pub %s: %s' % (attr(f, state), f.name, f.ty) for f in fields)))
    has_size = size is not None
    def acc(i, f): return str(i) if tuple_ else f.name
    def lit(vals, rt_expr):
        items = ['%s: %s' % (acc(i, f), v) for i, (f, v) in enumerate(zip(fields, vals))]
        n = len(fields)
        if has_size:
            items.append('%s: SizeCache::new()' % (n if tuple_ else size)); n += 1
        if state: items.append('%s: %s' % (n if tuple_ else rt, rt_expr))
        return 'Self { %s }' % ', '.join(items)
    if params: where = ' where %s' % ', '.join('%s: Live' % p for p in params)
    W('impl%s Model for %s%s {' % (g, name, u))
    W('fn ty() -> Ty { intern::<Self>(|| TyDef::Struct("%s", %s)) }' % (name, field_defs(fields, state)))
    W('fn val(&self) -> Val { Val::Struct(vec![%s]) }' % ', '.join('Model::val(&self.%s)' % acc(i, f) for i, f in enumerate(fields)))
    if state:
        W('fn make(v: &Val) -> Self { Self::build(Runtime::default(), v) } }')
        W('impl%s Live for %s%s {' % (g, name, u))
        W('fn build(rt: Runtime, v: &Val) -> Self { let v = fields(v); let _ = v;')
        W(lit(['Live::build(rt.nested(%d), &v[%d])' % (f.tag, i) if f.state else 'Model::make(&v[%d])' % i for i, f in enumerate(fields)], 'rt') + ' }')
        W('fn build_mut(rt: Runtime, v: &Val) -> Self { let v = fields(v); let _ = v; let mut s = Self::%s(rt);' % ctor)
        for i, f in enumerate(fields):
            sn = 'f%d' % i if tuple_ else f.name
            if f.state: W('s.set_%s_with(|rt| Live::build_mut(rt, &v[%d]));' % (sn, i))
            else: W('s.set_%s(Model::make(&v[%d]));' % (sn, i))
        if not fields: W('let _ = &mut s;')
        W('s }')
        W('fn act(&mut self, path: &[u32], op: &Op) -> Perform { match path.first().copied()? {')
        for i, f in enumerate(fields):
            sn = 'f%d' % i if tuple_ else f.name
            if f.state: W('%d => live_field!(self, set_%s, set_%s_with, self.%s, path, op),' % (f.tag, sn, sn, acc(i, f)))
            else: W('%d => plain_field!(self, set_%s, path, op),' % (f.tag, sn))
        W('_ => { let _ = op; None } } }')
        W('fn visit(&self, f: &mut dyn FnMut(Node)) { f(Node::Rt(self.runtime())); f(Node::Size(self.size_cache()));')
        for i, f in enumerate(fields):
            if f.state: W('Live::visit(&self.%s, f);' % acc(i, f))
        W('}')
        W('fn audit(&self) -> Result<(), String> { %s Ok(()) }' % ' '.join('Live::audit(&self.%s)?;' % acc(i, f) for i, f in enumerate(fields) if f.state))
        W('fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool { match path.split_first() { None => { f(self); true }')
        for i, f in enumerate(fields):
            if f.state: W('Some((%d, rest)) => Live::at(&mut self.%s, rest, f),' % (f.tag, acc(i, f)))
        W('_ => false } } }')
    else:
        W('fn make(v: &Val) -> Self { let v = fields(v); let _ = v; %s } }' % lit(['Model::make(&v[%d])' % i for i in range(len(fields))], ''))
    W('')

class V:
    def __init__(s, tag, name, fields=(), shape='named', size='size_cache', rt='runtime', attrs=()):
        s.tag, s.name, s.fields, s.shape, s.size, s.rt, s.attrs = tag, name, list(fields), shape, size, rt, attrs

def enum(name, variants, state=True, derives=('Clone', 'PartialEq', 'Debug'), attrs=(), params=(), ctor='new'):
    ders = list(derives) + (['State'] if state else ['Serialize', 'Deserialize'])
    W('#[steit_derive(%s)]' % ', '.join(ders))
    for a in attrs: W('#[steit(%s)]' % a)
    g, u = generics(params, 'Live' if state else 'Model')
    dg = ('<%s>' % ', '.join('%s: State' % p for p in params)) if params else ''
    W('pub enum %s%s {' % (name, dg))
    for v in variants:
        W('#[steit(%s)]' % ', '.join(['tag = %d' % v.tag] + list(v.attrs)))
        if v.shape == 'unit': W('%s,' % v.name)
        elif v.shape == 'tuple': W('%s(%s),' % (v.name, ', '.join('%s %s' % (attr(f, state), f.ty) for f in v.fields)))
        else: W('%s { %s },' % (v.name, ', '.join('%s %s: %s' % (attr(f, state), f.name, f.ty) for f in v.fields)))
    W('}')
    def acc(v, i, f): return str(i) if v.shape == 'tuple' else f.name
    def pat(v): return '%s::%s { %s .. }' % (name, v.name, ''.join('%s: x%d, ' % (acc(v, i, f), i) for i, f in enumerate(v.fields)))
    def lit(v, vals, rt_expr):
        items = ['%s: %s' % (acc(v, i, f), x) for i, (f, x) in enumerate(zip(v.fields, vals))]
        n = len(v.fields)
        if v.size is not None:
            items.append('%s: SizeCache::new()' % (n if v.shape == 'tuple' else v.size)); n += 1
        if state: items.append('%s: %s' % (n if v.shape == 'tuple' else v.rt, rt_expr))
        return '%s::%s { %s }' % (name, v.name, ', '.join(items))
    W('impl%s Model for %s%s {' % (g, name, u))
    W('fn ty() -> Ty { intern::<Self>(|| TyDef::Enum("%s", vec![%s])) }' % (name, ', '.join(
        'Variant { tag: %d, name: "%s", fields: %s }' % (v.tag, v.name, field_defs(v.fields, state)) for v in variants)))
    W('fn val(&self) -> Val { match self { %s } }' % ', '.join(
        '%s => Val::Enum(%d, vec![%s])' % (pat(v), v.tag, ', '.join('Model::val(x%d)' % i for i in range(len(v.fields)))) for v in variants))
    if state:
        W('fn make(v: &Val) -> Self { Self::build(Runtime::default(), v) } }')
        W('impl%s Live for %s%s {' % (g, name, u))
        W('fn build(rt: Runtime, v: &Val) -> Self { let (tag, v) = variant_of(v); let _ = v; let rt = rt.nested(tag); match tag {')
        for v in variants:
            W('%d => %s,' % (v.tag, lit(v, ['Live::build(rt.nested(%d), &v[%d])' % (f.tag, i) if f.state else 'Model::make(&v[%d])' % i for i, f in enumerate(v.fields)], 'rt')))
        W('_ => panic!("ill-typed") } }')
        W('fn build_mut(rt: Runtime, v: &Val) -> Self { let (tag, v) = variant_of(v); let _ = v; match tag {')
        for v in variants:
            W('%d => {' % v.tag)
            if v.fields:
                W('let mut s = Self::%s(rt);' % ctor)
                for i, f in enumerate(v.fields):
                    sn = '%s_%s' % (snake(v.name), 'f%d' % i if v.shape == 'tuple' else f.name)
                    if f.state: W('s.set_%s_with(|rt| Live::build_mut(rt, &v[%d]));' % (sn, i))
                    else: W('s.set_%s(Model::make(&v[%d]));' % (sn, i))
                W('s }')
            else: W('Self::%s_%s(rt) }' % (ctor, snake(v.name)))
        W('_ => panic!("ill-typed") } }')
        W('fn act(&mut self, path: &[u32], op: &Op) -> Perform { if path.len() < 2 { return None; } match (path[0], path[1]) {')
        for v in variants:
            for i, f in enumerate(v.fields):
                sn = '%s_%s' % (snake(v.name), 'f%d' % i if v.shape == 'tuple' else f.name)
                if f.state: W('(%d, %d) => variant_field!(self, %s, set_%s, set_%s_with, %s::%s { %s: x, .. }, x, path, op),' % (v.tag, f.tag, f.ty, sn, sn, name, v.name, acc(v, i, f)))
                else: W('(%d, %d) => plain_field!(self, set_%s, &path[1..], op),' % (v.tag, f.tag, sn))
        W('_ => { let _ = op; None } } }')
        W('fn visit(&self, f: &mut dyn FnMut(Node)) { f(Node::Rt(self.runtime())); f(Node::Size(self.size_cache())); match self {')
        for v in variants:
            W('%s::%s { %s .. } => { %s }' % (name, v.name,
              ''.join('%s: x%d, ' % (acc(v, i, f), i) for i, f in enumerate(v.fields) if f.state),
              ' '.join('Live::visit(x%d, f);' % i for i, f in enumerate(v.fields) if f.state)))
        W('} }')
        W('fn audit(&self) -> Result<(), String> { match self {')
        for v in variants:
            W('%s::%s { %s .. } => { %s }' % (name, v.name,
              ''.join('%s: x%d, ' % (acc(v, i, f), i) for i, f in enumerate(v.fields) if f.state),
              ' '.join('Live::audit(x%d)?;' % i for i, f in enumerate(v.fields) if f.state)))
        W('} Ok(()) }')
        W('fn at(&mut self, path: &[u32], f: &mut dyn FnMut(&mut dyn crate::dynamic::DynState)) -> bool { if path.is_empty() { f(self); return true; } if path.len() < 2 { return false; } match (self, path[0], path[1]) {')
        for v in variants:
            for i, f in enumerate(v.fields):
                if f.state: W('(%s::%s { %s: x, .. }, %d, %d) => Live::at(x, &path[2..], f),' % (name, v.name, acc(v, i, f), v.tag, f.tag))
        W('_ => false } } }')
    else:
        W('fn make(v: &Val) -> Self { let (tag, v) = variant_of(v); let _ = v; match tag {')
        for v in variants:
            W('%d => %s,' % (v.tag, lit(v, ['Model::make(&v[%d])' % i for i in range(len(v.fields))], '')))
        W('_ => panic!("ill-typed") } } }')
    W('')

W('''// Generated by gen_schemas.py, do not edit.
#![allow(clippy::all, dead_code, non_local_definitions)]
use std::collections::HashMap;
use steit::{rt::{Runtime, SizeCache}, ser::Serialize, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use crate::{live::*, model::*};

fn fields(v: &Val) -> &[Val] { match v { Val::Struct(v) => v, _ => panic!("ill-typed") } }
fn variant_of(v: &Val) -> (u32, &[Val]) { match v { Val::Enum(tag, v) => (*tag, v), _ => panic!("ill-typed") } }

fn ready_for<T: 'static>(_field: &T, how: How) -> bool { ready::<T>(how) }

macro_rules! live_field {
    ($self:expr, $set:ident, $set_with:ident, $field:expr, $path:expr, $op:expr) => {
        match $op {
            Op::Set(_, how) if $path.len() == 1 && !ready_for(&$field, *how) => None,
            Op::Set(v, how @ (How::Value | How::Hand)) if $path.len() == 1 => { $self.$set(by_value(*how, v)); done(Ret::Unit) }
            Op::Set(v, how) if $path.len() == 1 => { $self.$set_with(|rt| build_how(*how, rt, v)); done(Ret::Unit) }
            _ => Live::act(&mut $field, &$path[1..], $op),
        }
    };
}

macro_rules! plain_field {
    ($self:expr, $set:ident, $path:expr, $op:expr) => {
        match $op {
            Op::Set(v, How::Value) if $path.len() == 1 => { $self.$set(Model::make(v)); done(Ret::Unit) }
            _ => None,
        }
    };
}

macro_rules! variant_field {
    ($self:expr, $ty:ty, $set:ident, $set_with:ident, $pat:pat, $x:ident, $path:expr, $op:expr) => {
        match $op {
            Op::Set(_, how) if $path.len() == 2 && !ready::<$ty>(*how) => None,
            Op::Set(v, how @ (How::Value | How::Hand)) if $path.len() == 2 => { $self.$set(by_value(*how, v)); done(Ret::Unit) }
            Op::Set(v, how) if $path.len() == 2 => { $self.$set_with(|rt| build_how(*how, rt, v)); done(Ret::Unit) }
            _ => match $self { $pat => Live::act($x, &$path[2..], $op), #[allow(unreachable_patterns)] _ => None },
        }
    };
}
''')

EQ = ('Clone', 'PartialEq', 'Eq', 'Hash', 'Debug')

# ---- states
struct('Pt', [F(0, 'x', 'i32'), F(1, 'y', 'i32')], derives=EQ)
struct('Mini', [F(0, 'n', 'u8')], derives=EQ)
struct('Emp', [], derives=EQ)
struct('Unit', [], derives=EQ, unit=True)
enum('Sh', [
    V(0, 'Nil', shape='unit'),
    V(1, 'Dot', [F(2, 'p', 'Pt'), F(0, 'on', 'bool')]),
    V(5, 'PolyLine', [F(0, 'xs', 'List<Pt>'), F(1, 'n', 'u16')]),
    V(16, 'Pair', [F(0, 'f0', 'i32'), F(1, 'f1', 'Mini')], shape='tuple'),
    V(300, 'Far', [F(0, 'm', 'Map<u8, i32>')]),
])
struct('Deep', [F(16, 'c', 'bool'), F(3, 'a', 'Pt'), F(536870911, 'd', 'i64'), F(15, 'b', 'u16'), F(2, 'l', 'List<u8>'), F(0, 'e', 'Sh'), F(2047, 'm', 'Map<u16, Pt>'), F(2048, 'k', 'i8')])
enum('Tree', [
    V(0, 'Leaf', [F(0, 'v', 'i32')]),
    V(1, 'Fork', [F(0, 'l', 'Box<Tree>'), F(1, 'r', 'Box<Tree>')]),
    V(2, 'Many', [F(0, 'f0', 'List<Tree>')], shape='tuple'),
])
struct('Opts', [F(0, 'm', 'Maybe<i32>'), F(1, 'n', 'Maybe<Pt>'), F(2, 'o', 'Maybe<List<Mini>>'), F(3, 'q', 'Maybe<Maybe<u8>>')])
struct('Gen', [F(0, 't', 'T'), F(1, 'ts', 'List<T>'), F(2, 'ms', 'Map<u8, T>')], params=('T',), derives=('Clone', 'PartialEq', 'Debug'))
struct('Ns', [F(0, 'a', 'i32'), F(1, 's', 'String', state=False), F(2, 'p', 'Pt'), F(3, 'v', 'Vec<u32>', state=False), F(4, 'q', 'Pt', state=False)])
enum('NsEnum', [
    V(0, 'One', [F(0, 'a', 'u8'), F(1, 's', 'String', state=False)]),
    V(1, 'Two', [F(0, 's', 'String', state=False), F(1, 'p', 'Pt')]),
])
struct('Ren', [F(0, 'a', 'i32'), F(1, 'p', 'Pt'), F(2, 'l', 'List<Mini>')], attrs=['size_cache_renamed = "cached"', 'runtime_renamed = "rt"', 'ctor_prefix = "create"'], size='cached', rt='rt', ctor='create')
struct('NoSc', [F(0, 'x', 'i32'), F(1, 'p', 'Pt'), F(2, 'l', 'List<Pt>')], attrs=['no_size_cache'], size=None)
struct('Tup', [F(4, 'f0', 'i32'), F(1, 'f1', 'List<u8>'), F(0, 'f2', 'Pt')], tuple_=True)
struct('Ints', [F(i, n, t) for i, (n, t) in enumerate([('a', 'u8'), ('b', 'u16'), ('c', 'u32'), ('d', 'u64'), ('e', 'i8'), ('f', 'i16'), ('g', 'i32'), ('h', 'i64'), ('i', 'bool')])], derives=EQ)
enum('EnR', [
    V(0, 'Off', [], size=None, rt='rt0', attrs=['no_size_cache', 'runtime_renamed = "rt0"']),
    V(2, 'OnState', [F(0, 'p', 'Pt'), F(1, 'k', 'u8')], rt='rt', size='sc', attrs=['size_cache_renamed = "sc"']),
    V(3, 'Raw', [F(7, 'f0', 'List<Mini>')], shape='tuple', size=None, attrs=['no_size_cache']),
], attrs=['runtime_renamed = "rt"', 'ctor_prefix = "create"'], ctor='create')
enum('Switch', [V(0, 'Off', shape='unit'), V(1, 'On', shape='unit')], derives=EQ)
struct('Nest', [F(0, 'e', 'EnR'), F(1, 's', 'Switch'), F(2, 'b', 'Box<Pt>'), F(3, 'bs', 'Box<Sh>'), F(4, 'u', 'Unit'), F(5, 'ren', 'Ren'), F(6, 'no', 'NoSc'), F(7, 't', 'Tup'), F(8, 'z', 'Box<i32>')])
# The default variant isn't the first one.
enum('Late', [
    V(9, 'Far', [F(3, 'q', 'Box<Box<i32>>'), F(1, 'p', 'Box<Box<Pt>>')]),
    V(0, 'Base', [F(1, 'n', 'u8')]),
    V(2, 'More', [F(0, 'f0', 'List<Late>')], shape='tuple'),
])
enum('GenE', [V(0, 'Zero', shape='unit'), V(1, 'OneOf', [F(0, 't', 'T')]), V(2, 'Both', [F(0, 'f0', 'T'), F(1, 'f1', 'List<T>')], shape='tuple')], params=('T',), derives=('Clone', 'PartialEq', 'Debug'))

struct('GenB', [F(1, 'bb', 'Box<Box<T>>'), F(0, 'bl', 'Box<List<Box<T>>>')], params=('T',), derives=('Clone', 'PartialEq', 'Debug'))

# ---- equality and hashing
struct('Eqs', [F(0, 'a', 'u8'), F(1, 'h', 'u8', attrs=['no_hash']), F(2, 'n', 'u8', attrs=['no_eq_hash']), F(3, 'p', 'Pt')], derives=EQ)
struct('EqsTup', [F(1, 'f0', 'u8', attrs=['no_eq_hash']), F(0, 'f1', 'u8', attrs=['no_hash']), F(2, 'f2', 'u8')], derives=EQ, tuple_=True)
enum('EqsEnum', [
    V(0, 'A', [F(0, 'a', 'u8'), F(1, 'h', 'u8', attrs=['no_hash']), F(2, 'n', 'u8', attrs=['no_eq_hash'])]),
    V(1, 'B', [F(0, 'a', 'u8'), F(1, 'h', 'u8', attrs=['no_hash']), F(2, 'n', 'u8', attrs=['no_eq_hash'])]),
    V(2, 'C', [F(0, 'f0', 'u8', attrs=['no_eq_hash']), F(1, 'f1', 'u8')], shape='tuple'),
    V(3, 'D', shape='unit'),
], derives=EQ)
struct('EqsPlain', [F(0, 'a', 'u8'), F(1, 'h', 'Vec<u8>', attrs=['no_hash']), F(2, 'n', 'String', attrs=['no_eq_hash']), F(3, 'b', 'bool', attrs=['no_hash = true']), F(4, 'c', 'bool', attrs=['no_eq_hash = false'])], state=False, derives=EQ)
struct('EqsList', [F(0, 'l', 'List<EqsEnum>'), F(1, 'e', 'Eqs')], derives=EQ)
enum('EqsKind', [
    V(0, 'A', [F(0, 'f0', 'u8', attrs=['no_hash']), F(1, 'f1', 'String', attrs=['no_eq_hash']), F(2, 'f2', 'u8')], shape='tuple'),
    V(1, 'B', [F(0, 'a', 'Vec<u8>', attrs=['no_eq_hash'])]),
    V(2, 'C', [F(0, 'a', 'Vec<u8>')]),
], state=False, derives=EQ)
struct('EqsGen', [F(0, 't', 'T', attrs=['no_eq_hash']), F(1, 'u', 'T', attrs=['no_hash']), F(2, 'w', 'T')], derives=EQ, params=('T',))
struct('EqsNone', [F(0, 'a', 'u8', attrs=['no_eq_hash']), F(1, 's', 'String', state=False, attrs=['no_eq_hash'])], derives=EQ)

# ---- plain codecs
struct('Pp', [F(0, 'x', 'i32'), F(1, 'y', 'i32')], state=False, derives=EQ)
struct('C1', [F(0, 'a', 'Vec<i32>'), F(1, 'b', 'Option<i32>'), F(2, 'c', 'String'), F(3, 'd', 'Bytes'), F(5, 'f', '[u8; 3]'), F(17, 'g', 'u64')], state=False)
struct('C2', [F(0, 'v', 'Vec<Pp>'), F(9, 't', '(Pp, String, Vec<u8>)'), F(1, 'o', 'Option<Pp>'), F(2, 'h', 'HashMap<u8, String>')], state=False, attrs=['no_meta'])
enum('C3', [V(0, 'A', shape='unit'), V(1, 'B', [F(0, 's', 'String')]), V(128, 'C', [F(0, 'f0', 'Vec<Option<u8>>'), F(1, 'f1', 'Box<C3>')], shape='tuple')], state=False)
struct('C4', [F(1, 'f0', 'Bytes'), F(0, 'f1', 'C3')], state=False, tuple_=True)
struct('C5', [F(0, 'p', 'Box<Pp>'), F(1, 'e', 'C3'), F(2, 'z', 'Box<i64>'), F(3, 'v', 'Vec<C3>')], state=False, attrs=['no_size_cache'], size=None)
struct('Blob', [F(0, 'b', 'Bytes')], state=False, derives=EQ)
struct('Text', [F(1, 's', 'String')], state=False, derives=EQ)

# ---- states whose parts may be changed by different threads
enum('Quad', [
    V(0, 'Zero', shape='unit'),
    V(1, 'One', [F(0, 'f0', 'i32')], shape='tuple'),
    V(7, 'Two', [F(2, 'p', 'Pt'), F(0, 'l', 'List<u8>')]),
])
struct('Par', [F(0, 'p', 'Pt'), F(1, 'l', 'List<Pt>'), F(2, 'q', 'Quad'), F(3, 'n', 'Maybe<Pt>'), F(16, 'k', 'List<List<u8>>'), F(5, 'b', 'Box<Quad>'), F(200, 's', 'String', state=False)])
struct('Wide', [F(0, 'a', 'Pt'), F(1, 'b', 'Box<Pt>'), F(2, 'l', 'List<Pt>'), F(4, 's', 'String', state=False), F(3, 'v', 'Vec<Pp>', state=False), F(5, 'n', 'Maybe<Pt>'), F(6, 'e', 'Quad')])

# ---- schema versions: every subset of four fields, and one version with other wire types
EV = [F(0, 'a', 'i32'), F(1, 'p', 'Pp'), F(2, 's', 'String'), F(16, 'v', 'Vec<i32>')]
versions = []
for m in range(16):
    n = 'Ev%d' % m
    struct(n, [f for i, f in enumerate(EV) if m >> i & 1], state=False)
    versions.append(n)
struct('Ev16', [F(0, 'a', 'String'), F(1, 'p', 'u16'), F(2, 's', 'bool'), F(16, 'v', 'i64')], state=False)
struct('Ev17', [F(16, 'v', 'Vec<i32>'), F(2, 's', 'String'), F(0, 'a', 'i32'), F(1, 'p', 'Pp')], state=False)
versions += ['Ev16', 'Ev17']
SEV = [F(0, 'a', 'i32'), F(1, 'p', 'Pt'), F(2, 'm', 'Map<u8, i32>'), F(300, 'l', 'List<Pt>')]
sversions = []
for m in range(16):
    n = 'Sv%d' % m
    struct(n, [f for i, f in enumerate(SEV) if m >> i & 1])
    sversions.append(n)
struct('Sv16', [F(0, 'a', 'List<u8>'), F(1, 'p', 'u8'), F(2, 'm', 'bool'), F(300, 'l', 'i16')])
sversions.append('Sv16')
evn = []
for m in range(8):
    n = 'Ee%d' % m
    enum(n, [V(0, 'Zero', [f for i, f in enumerate(EV[:3]) if m >> i & 1]), V(1, 'One', [f for i, f in enumerate(EV[:3]) if (7 - m) >> i & 1])], state=False)
    evn.append(n)

W('macro_rules! for_versions { ($m:ident) => { $m! { %s } } }' % ' '.join(versions))
W('macro_rules! for_state_versions { ($m:ident) => { $m! { %s } } }' % ' '.join(sversions))
W('macro_rules! for_enum_versions { ($m:ident) => { $m! { %s } } }' % ' '.join(evn))
W('pub(crate) use {for_versions, for_state_versions, for_enum_versions};')

roots = {
 'Pt': 'Pt', 'Deep': 'Deep', 'Sh': 'Sh', 'Tree': 'Tree', 'Opts': 'Opts', 'Gen<i32>': 'Gen<i32>', 'Gen<Sh>': 'Gen<Sh>', 'Ns': 'Ns',
 'NsEnum': 'NsEnum', 'Ren': 'Ren', 'NoSc': 'NoSc', 'Tup': 'Tup', 'Ints': 'Ints', 'EnR': 'EnR', 'Nest': 'Nest', 'GenE<Pt>': 'GenE<Pt>',
 'Switch': 'Switch', 'Emp': 'Emp', 'Late': 'Late',
}
for t in ['List<i32>', 'List<bool>', 'List<Pt>', 'List<Sh>', 'List<EnR>', 'List<List<u8>>', 'List<Maybe<i32>>', 'List<Box<Sh>>', 'List<Emp>', 'List<Map<u8, Pt>>', 'List<Box<i32>>', 'List<Tree>', 'List<NoSc>', 'List<Ren>', 'List<GenE<Pt>>',
          'Map<u8, i32>', 'Map<u16, Pt>', 'Map<u32, Sh>', 'Map<u8, Map<u16, List<u8>>>', 'Map<u8, Maybe<Pt>>', 'Map<u16, Emp>', 'Map<u8, List<Sh>>', 'Map<u32, bool>', 'Map<u8, Box<EnR>>', 'Map<u16, NoSc>', 'Map<u8, Tree>',
          'Box<Sh>', 'Box<Pt>', 'Maybe<Pt>', 'Maybe<Sh>', 'Maybe<List<Pt>>', 'Maybe<Maybe<i32>>', 'Box<Maybe<i32>>', 'List<Gen<u8>>', 'Map<u8, Late>', 'GenB<u8>', 'GenB<Pt>']:
    roots[t] = t
W('/// Calls a macro with all root states.')
W('#[macro_export] macro_rules! for_roots { ($m:ident) => { $m! { %s } } }' % ' '.join('("%s", %s)' % (k.replace(' ', ''), v) for k, v in roots.items()))
eqs = ['Mini', 'Unit', 'Eqs', 'EqsTup', 'EqsEnum', 'EqsList', 'EqsGen<u8>', 'EqsGen<Pt>', 'EqsNone', 'List<Eqs>', 'Map<u8, Eqs>', 'Map<u16, EqsEnum>', 'Maybe<Eqs>', 'Box<EqsEnum>', 'List<Box<EqsTup>>', 'List<Maybe<EqsGen<u8>>>']
W('/// Calls a macro with root states to be compared.')
W('#[macro_export] macro_rules! for_eqs { ($m:ident) => { $m! { %s } } }' % ' '.join('("%s", %s)' % (k.replace(' ', ''), k) for k in eqs))
hashed = [k for k in eqs + ['Pt', 'Emp', 'Switch', 'Ints', 'EqsPlain', 'EqsKind', 'Pp', 'Blob', 'Text', 'List<i32>', 'List<bool>', 'List<Pt>', 'List<List<u8>>', 'List<Maybe<i32>>', 'List<Emp>', 'List<Box<i32>>', 'Maybe<Pt>', 'Maybe<List<Pt>>', 'Maybe<Maybe<i32>>', 'Box<Pt>', 'Box<Maybe<i32>>', 'Bytes', 'Vec<Pp>', 'Option<Bytes>', 'Box<Pp>', 'Vec<Bytes>'] if not k.startswith('Map')]
W('/// Calls a macro with types which can be hashed.')
W('#[macro_export] macro_rules! for_hashed { ($m:ident) => { $m! { %s } } }' % ' '.join('("%s", %s)' % (k.replace(' ', ''), k) for k in hashed))
codecs = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool', 'String', 'Bytes', 'Vec<u8>', 'Vec<i32>', 'Vec<Vec<u8>>', 'Vec<String>', 'Vec<Option<u8>>', 'Vec<bool>', 'Vec<Pp>', 'Vec<C3>',
  'Option<u8>', 'Option<Option<u8>>', 'Option<String>', 'Option<Pp>', 'Option<Vec<u8>>', 'Option<(u8, u8)>', '[u8; 1]', '[i32; 2]', '[String; 3]', '[Pp; 2]', '[Vec<u8>; 2]', '[u8; 7]', '[bool; 4]', '[u16; 5]', '[i8; 6]', '[Option<u8>; 2]', 'Vec<[u8; 2]>',
  '(u8, i32)', '(String, u8)', '(Pp, String, bool)', '(u8, u8, u8, u8)', '(u8, String, u8, Vec<u8>, i32)', '(u8, u8, u8, u8, u8, bool)', '(bool, u8, i8, u16, String, u8, u64)', 'Vec<(u8, String)>', '((u8, u8), [u8; 2])',
  'HashMap<u8, u8>', 'HashMap<String, bool>', 'HashMap<u16, Vec<u8>>', 'HashMap<u8, Pp>', 'HashMap<Pp, Option<u8>>', 'Vec<HashMap<u8, u8>>',
  'Box<u8>', 'Box<Pp>', 'Vec<Box<C3>>', 'Pp', 'C1', 'C2', 'C3', 'C4', 'C5', 'Blob', 'Text', 'EqsPlain', 'EqsKind', 'Option<Bytes>', 'Vec<Bytes>', 'Vec<u64>', 'Option<i64>']
W('/// Calls a macro with all values which aren\'t states.')
W('#[macro_export] macro_rules! for_codecs { ($m:ident) => { $m! { %s } } }' % ' '.join('("%s", %s)' % (c.replace(' ', ''), c) for c in codecs))
open('src/schemas.rs', 'w').write('\n'.join(out) + '\n')
print(len(roots), 'roots', len(codecs), 'codecs')
