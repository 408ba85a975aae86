#!/usr/bin/env python3
"""Writes src/schemas.rs: all schemas within bounds, and next to each one what its metadata has to be."""
import itertools, os

TAG_MAX = (1 << 29) - 1
out, msgs, roots = [], [], []

# --- Type expressions: (kind, ...) ------------------------------------------------------------------------------------
PRIMS = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool', 'String']

def prim(p): return ('prim', p)
def rust(t):
    k = t[0]
    if k == 'prim': return t[1]
    if k == 'bytes': return 'Bytes'
    if k == 'param': return t[1]
    if k == 'msg': return path(t[1]) + (('<' + ', '.join(rust(a) for a in t[2]) + '>') if t[2] else '')
    if k == 'vec': return f'Vec<{rust(t[1])}>'
    if k == 'opt': return f'Option<{rust(t[1])}>'
    if k == 'box': return f'Box<{rust(t[1])}>'
    if k == 'list': return f'List<{rust(t[1])}>'
    if k == 'arr': return f'[{rust(t[1])}; {t[2]}]'
    if k == 'map': return f'Map<{t[1]}, {rust(t[2])}>'
    if k == 'paren': return f'({rust(t[1])})'
    if k == 'alias': return t[1]
    if k == 'at': return t[1] + rust(t[2])
    raise Exception(t)

def expr(t):
    """The same as a constant of the harness."""
    k = t[0]
    if k == 'prim': return f'Ty::Prim("{t[1]}")'
    if k == 'bytes': return 'Ty::Bytes'
    if k == 'param': return f'Ty::Param("{t[1]}")'
    if k == 'msg': return f'Ty::Msg({t[1]}, &[{", ".join(expr(a) for a in t[2])}])'
    if k in ('vec', 'opt', 'box', 'list', 'arr'):
        name = {'vec': 'Vec', 'opt': 'Opt', 'box': 'Box', 'list': 'List', 'arr': 'Arr'}[k]
        n = f', {t[2]}' if k == 'arr' else ''
        return f'Ty::{name}(&{expr(t[1])}{n})'
    if k == 'map': return f'Ty::Map("{t[1]}", &{expr(t[2])})'
    if k == 'paren': return expr(t[1])
    if k in ('alias', 'at'): return expr(t[2])
    raise Exception(t)

def is_state(t):
    """Whether it may be an item of a list."""
    k = t[0]
    if k == 'prim': return t[1] != 'String'
    if k == 'msg': return msgs[t[1]]['state'] and all(map(is_state, t[2]))
    if k in ('list', 'map', 'param'): return True
    if k in ('box', 'paren'): return is_state(t[1])
    if k in ('alias', 'at'): return is_state(t[2])
    return False

def path(i):
    m = msgs[i]
    return m['path']

# --- Messages ---------------------------------------------------------------------------------------------------------
class Field:
    def __init__(self, name, ty, tag, cs=None): self.name, self.ty, self.tag, self.cs = name, ty, tag, cs

def announce(name, module=None, params=(), state=True, cs=None, builtin=False, full=None):
    msgs.append(dict(name=name, module=module, path=full or (f'{module}::{name}' if module else name), params=params,
                     state=state, cs=cs, builtin=builtin, kind=None))
    return len(msgs) - 1

def fields_expr(fields):
    return '&[' + ', '.join(f'Field {{ rust: "{f.name}", cs: {opt(f.cs)}, tag: {f.tag}, ty: {expr(f.ty)} }}' for f in fields) + ']'

def opt(s): return 'None' if s is None else f'Some("{s}")'

def attrs(tag=None, cs=None, more=()):
    parts = ([f'tag = {tag}'] if tag is not None else []) + ([f'csharp_name = "{cs}"'] if cs else []) + list(more)
    return f'#[steit({", ".join(parts)})] ' if parts else ''

def body(fields, shape, generic_pub='pub '):
    if shape == 'unit': return None
    if shape == 'tuple':
        return '(' + ', '.join(attrs(f.tag, f.cs) + generic_pub + rust(f.ty) for f in fields) + ')'
    return '{ ' + ' '.join(f'{attrs(f.tag, f.cs)}{generic_pub}{f.name}: {rust(f.ty)},' for f in fields) + ' }'

def emit(module, text):
    out.append((module, text))

def generics(m):
    if not m['params']: return ''
    bound = 'State' if m['state'] else 'Value'
    return '<' + ', '.join(f'{p}: {bound}' for p in m['params']) + '>'

def derive(m):
    return '#[steit_derive(State)]' if m['state'] else '#[steit_derive(Serialize, Deserialize)]'

def struct(i, fields, shape='named', extra=()):
    m = msgs[i]
    m['kind'] = f'Kind::Struct({fields_expr(fields)})'
    b = body(fields, shape)
    text = f'{derive(m)} {attrs(None, m["cs"], extra)}pub struct {m["name"]}{generics(m)}'
    text += ';' if b is None else (' ' + b if shape == 'named' else b + ';')
    emit(m['module'], text)
    return i

def enum(i, variants, extra=()):
    """Variants: (name, csharp name, tag, shape, fields)."""
    m = msgs[i]
    kinds, texts = [], []
    for name, cs, tag, shape, fields in variants:
        kinds.append(f'Variant {{ rust: "{name}", cs: {opt(cs)}, tag: {tag}, fields: {fields_expr(fields)} }}')
        b = body(fields, shape, '')
        texts.append(f'{attrs(tag, cs)}{name}{"" if b is None else b if shape == "tuple" else " " + b},')
    m['kind'] = f'Kind::Enum(&[{", ".join(kinds)}])'
    emit(m['module'], f'{derive(m)} {attrs(None, m["cs"], extra)}pub enum {m["name"]}{generics(m)} {{ {" ".join(texts)} }}')
    return i

def root(i, args=(), family=''):
    ty = ('msg', i, tuple(args))
    roots.append((rust(ty), expr(ty), msgs[i]['state'] and all(map(is_state, args)), family))

# --- Builtins of steit ------------------------------------------------------------------------------------------------
MAYBE = announce('Maybe', params=('T',), builtin=True)
msgs[MAYBE]['kind'] = ('Kind::Enum(&[Variant { rust: "None", cs: None, tag: 0, fields: &[] }, '
                       'Variant { rust: "Some", cs: None, tag: 1, fields: &[Field { rust: "value", cs: None, tag: 0, ty: Ty::Param("T") }] }])')
LOG = announce('LogEntry', builtin=True, state=False, full='steit::log::LogEntry')
_path = 'Field { rust: "path", cs: Some("flatten_path"), tag: 0, ty: Ty::Vec(&Ty::Prim("u32")) }'
def _entry(name, tag, more=''): return f'Variant {{ rust: "{name}", cs: None, tag: {tag}, fields: &[{_path}{more}] }}'
_b = ', Field { rust: "%s", cs: None, tag: 1, ty: %s }'
msgs[LOG]['kind'] = 'Kind::Enum(&[' + ', '.join([
    _entry('Update', 0, _b % ('value', 'Ty::Bytes')), _entry('ListPush', 8, _b % ('item', 'Ty::Bytes')),
    _entry('ListPop', 9), _entry('MapRemove', 12, _b % ('key', 'Ty::Prim("u32")'))]) + '])'
root(LOG, (), 'builtin')

# --- Leaves used everywhere -------------------------------------------------------------------------------------------
S0 = struct(announce('S0'), [Field('a', prim('u8'), 0)])
S1 = struct(announce('S1', cs='SuperOne'), [Field('x_y', ('msg', S0, ()), 3)])
E0 = enum(announce('E0'), [('No', None, 0, 'unit', []), ('Yes', None, 1, 'tuple', [Field('f0', prim('i16'), 0)])])
D0 = struct(announce('D0', state=False), [Field('s', prim('String'), 0)])
G0 = struct(announce('G0', params=('T',)), [Field('item', ('param', 'T'), 2)])
for i in (S0, S1, E0, D0): root(i, (), 'leaf')
m0, m1, me, md = ('msg', S0, ()), ('msg', S1, ()), ('msg', E0, ()), ('msg', D0, ())

# --- Type expressions up to three constructors ------------------------------------------------------------------------
def ctors(t, keys=('u8',)):
    yield ('vec', t)
    yield ('opt', t)
    yield ('arr', t, 3)
    if t[0] != 'bytes': yield ('box', t)
    if is_state(t):
        yield ('list', t)
        for k in keys: yield ('map', k, t)
        yield ('msg', MAYBE, (t,))
        yield ('msg', G0, (t,))

def defaultable(t): return True

leaves1 = [prim(p) for p in PRIMS] + [('bytes',), m0, m1, me, md]
leaves2 = [prim('u32'), prim('String'), ('bytes',), m0, md]
leaves3 = [prim('i64'), m0]
exprs = list(leaves1)
for t in leaves1: exprs += list(ctors(t, ('u8', 'u16', 'u32')))
for t in leaves2:
    for a in ctors(t): exprs += list(ctors(a))
for t in leaves3:
    for a in ctors(t):
        for b in ctors(a): exprs += list(ctors(b))
exprs = list(dict.fromkeys(exprs))
for n in range(0, len(exprs), 4):
    part = exprs[n:n + 4]
    i = announce(f'Ty{n // 4}', module='ty', state=False)
    root(struct(i, [Field(f'f{j}', t, j) for j, t in enumerate(part)]), (), 'types')

# Notations of the same type.
emit('ty', 'pub type AliasMap = Map<u16, S0>; pub type AliasList = List<S1>; pub type AliasBox = Box<S1>; pub type AliasNested = Vec<Box<S1>>; pub type AliasPrim = u32; pub type AliasMsg = S1; pub type AliasMaybe = Maybe<Box<S1>>;')
notations = [
    ('alias', 'AliasMap', ('map', 'u16', m0)), ('alias', 'AliasList', ('list', m1)), ('alias', 'AliasBox', ('box', m1)),
    ('alias', 'AliasNested', ('vec', ('box', m1))), ('alias', 'AliasPrim', prim('u32')), ('alias', 'AliasMsg', m1),
    ('alias', 'AliasMaybe', ('msg', MAYBE, (('box', m1),))),
    ('vec', ('alias', 'AliasMap', ('map', 'u16', m0))), ('list', ('alias', 'AliasMap', ('map', 'u16', m0))),
    ('box', ('alias', 'AliasBox', ('box', m1))),
    ('paren', prim('u8')), ('paren', m1), ('vec', ('paren', ('list', m0))),
    ('at', 'crate::schemas::', m0), ('at', 'super::', m1), ('at', 'steit::types::', ('list', m0)),
    ('at', 'std::vec::', ('vec', prim('u8'))), ('at', '::std::boxed::', ('box', m0)), ('at', 'steit::types::', ('bytes',)),
    ('at', 'std::primitive::', prim('u16')), ('at', '::std::string::', prim('String')),
    ('arr', ('paren', m0), 1), ('arr', ('arr', m0, 2), 7),
]
for n, t in enumerate(notations):
    i = announce(f'Note{n}', module='ty', state=False)
    root(struct(i, [Field('f', t, 7)]), (), 'notations')

# --- Shapes, tags and orders ------------------------------------------------------------------------------------------
some = [prim('u8'), prim('String'), m0, ('vec', prim('i32')), ('opt', me), prim('bool'), ('list', prim('u16'))]
some_state = [prim('u8'), m0, ('list', prim('i32')), me, ('map', 'u8', m1), prim('bool'), ('msg', MAYBE, (prim('u16'),))]
count = itertools.count()
for k in range(4):
    for tags in itertools.permutations((0, 1, 5, TAG_MAX), k):
        for shape in (('unit', 'named', 'tuple') if k == 0 else ('named', 'tuple')):
            for state in (True, False):
                n = next(count)
                if k == 3 and n % 2: continue
                pool = some_state if state else some
                fields = [Field(f'f{j}' if shape == 'tuple' else ['first', 'second_one', 'theThird'][j], pool[(n + j) % 7], tag)
                          for j, tag in enumerate(tags)]
                root(struct(announce(f'Sh{n}', module='shapes', state=state), fields, shape), (), 'shapes')

def variant_fields(shape, n, state):
    pool = some_state if state else some
    if shape == 'unit': return []
    if shape == 'tuple': return [Field('f0', pool[n % 7], 0)]
    return [Field('left', pool[n % 7], 1), Field('right_hand', pool[(n + 3) % 7], 0)]

for k in range(1, 4):
    for tags in itertools.permutations((0, 1, 3, TAG_MAX), k):
        if 0 not in tags: continue
        for c, shapes in enumerate(itertools.product(('unit', 'tuple', 'named'), repeat=k)):
            n = next(count)
            if k == 3 and n % 5: continue
            state = n % 3 != 0
            variants = [(['Alpha', 'BetaTwo', 'Gamma_three'][j], None, tag, shapes[j], variant_fields(shapes[j], n + j, state))
                        for j, tag in enumerate(tags)]
            root(enum(announce(f'En{n}', module='shapes', state=state), variants), (), 'shapes')

# --- Names given for C# -----------------------------------------------------------------------------------------------
for n, on in enumerate(itertools.product((0, 1), repeat=3)):
    i = announce(f'Na{n}', module='names', cs=f'Given{n}' if on[0] else None)
    root(struct(i, [Field('one_field', prim('u8'), 0, 'given_one' if on[1] else None),
                    Field('other', m1, 1, 'GivenOther' if on[2] else None)]), (), 'names')
for n, on in enumerate(itertools.product((0, 1), repeat=5)):
    i = announce(f'Nb{n}', module='names', cs=f'GivenEnum{n}' if on[0] else None)
    root(enum(i, [('One', 'First' if on[1] else None, 0, 'named', [Field('a_b', prim('u8'), 0, 'long_name' if on[2] else None)]),
                  ('Two', 'Second' if on[3] else None, 2, 'tuple', [Field('f0', m1, 4, 'inner' if on[4] else None)])]), (), 'names')
# Renamed or missing caches and runtimes change nothing.
root(struct(announce('Nc0', module='names'), [Field('a', prim('u8'), 0)], extra=('size_cache_renamed = "cs"', 'runtime_renamed = "rt"')), (), 'names')
root(struct(announce('Nc1', module='names'), [Field('a', m0, 1)], extra=('no_size_cache',)), (), 'names')
root(struct(announce('Nc2', module='names'), [Field('size', m0, 1), Field('reader', m1, 0)], extra=('ctor_prefix = "make"',)), (), 'names')

# --- Generics ---------------------------------------------------------------------------------------------------------
T, U = ('param', 'T'), ('param', 'U')
G1 = struct(announce('G1', params=('T', 'U'), module='generic'), [Field('b', U, 1), Field('a', T, 0), Field('c', ('map', 'u8', T), 2)])
G2 = struct(announce('G2', params=('T',), module='generic', state=False),
            [Field('v', ('vec', T), 0), Field('o', ('opt', T), 1), Field('a', ('arr', T, 2), 2), Field('b', ('box', T), 3), Field('t', T, 5)])
G3 = struct(announce('G3', params=('T',), module='generic'),
            [Field('l', ('list', T), 0), Field('g', ('msg', G0, (T,)), 1), Field('m', ('msg', MAYBE, (T,)), 2), Field('n', ('list', ('msg', G0, (('list', T),))), 3)])
G4 = struct(announce('G4', params=('T',), module='generic'), [Field('w', ('msg', G1, (T, ('msg', G0, (T,)))), 0), Field('z', ('msg', G1, (m0, T)), 1)])
G5 = enum(announce('G5', params=('T', 'U'), module='generic', cs='Either'),
          [('Left', None, 0, 'tuple', [Field('f0', T, 0)]), ('Right', None, 1, 'named', [Field('item', U, 0), Field('both', ('msg', G1, (T, U)), 1)]), ('None', None, 2, 'unit', [])])
G6 = struct(announce('G6', params=('T',), module='generic'), [Field('t', T, 9)])
G7 = struct(announce('G7', params=('T',), module='generic'), [Field('f0', ('msg', G5, (T, ('msg', G6, (T,)))), 0)], 'tuple')
args = [prim('u8'), prim('bool'), prim('i64'), m0, m1, me, ('list', m1), ('map', 'u16', m0), ('msg', G0, (prim('u8'),)),
        ('msg', G0, (m1,)), ('msg', MAYBE, (m1,)), ('box', m1)]
for g in (G0, G3, G4, G6, G7):
    for a in args: root(g, (a,), 'generic')
for a in args + [prim('String'), ('vec', m1), ('opt', prim('u8')), ('bytes',), md]: root(G2, (a,), 'generic')
for g in (G1, G5):
    for a in args[::2]:
        for b in args[1::2]: root(g, (a, b), 'generic')
for a in args: root(MAYBE, (a,), 'builtin')
users = list(itertools.product((G0, G3, G4, G7), args[3:]))
for n, (g, a) in enumerate(users):
    root(struct(announce(f'User{n}', module='generic'), [Field('used', ('msg', g, (a,)), 0)]), (), 'generic')

# --- Graphs of messages -----------------------------------------------------------------------------------------------
def wraps(c, t):
    return [t, ('box', t), ('opt', ('box', t)), ('vec', t), ('list', t), ('map', 'u32', t), ('msg', MAYBE, (('box', t),)),
            ('msg', G0, (('list', t),)), ('vec', ('box', t)), ('box', ('opt', ('box', t)))][c]
STATEFUL = (0, 4, 5, 6, 7)  # with box, not 1, as it is infinite by default
def canonical(n, edges):
    best = None
    for perm in itertools.permutations(range(n)):
        e = tuple(sorted((perm[a], perm[b]) for a, b in edges))
        if best is None or e < best: best = e
    return best

def reach(edges, a):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for p, q in edges:
            if p == x and q not in seen: seen.add(q); todo.append(q)
    return seen

graph = itertools.count()
def make(n, edges, pick, enums=False):
    """A module with n messages, and a field for each edge. Edges on cycles need to be finite by default."""
    g = next(graph)
    mod = f'g{g}'
    ids = [announce(f'{"ABCD"[a]}', module=mod, state=False) for a in range(n)]
    for a in range(n):
        fields = [Field('own', prim('u8'), 0)]
        for e, (p, q) in enumerate(edges):
            if p != a: continue
            c = pick(e)
            cyclic = p in reach(edges, q) or p == q
            if cyclic and c in (0, 1): c = 2
            t = wraps(c, ('msg', ids[q], ()))
            if c in (4, 5, 6, 7): msgs[ids[q]]['need_state'] = True
            fields.append(Field(f'to_{"abcd"[q]}', t, len(fields)))
        msgs[ids[a]]['fields'] = fields
    return g, ids, edges

def finish(made, enums):
    """Whatever is in a list or map has to be a state, and so does all of it."""
    g, ids, edges = made
    state = any(msgs[i].get('need_state') for i in ids)
    for i in ids: msgs[i]['state'] = state
    for a, i in enumerate(ids):
        fields = msgs[i]['fields']
        if state and any(f.ty[0] in ('vec', 'opt') or f.ty[0] == 'box' and f.ty[1][0] == 'opt' for f in fields):
            return False
    for a, i in enumerate(ids):
        fields = msgs[i]['fields']
        if enums and a % 2 == 0:
            for j, f in enumerate(fields): f.tag = 0
            variants = [(f.name.title().replace('_', ''), None, j, 'named', [f]) for j, f in enumerate(fields)]
            enum(i, variants)
        else:
            struct(i, fields)
        root(i, (), 'graphs')
    return True

def attempt(n, edges, pick, enums):
    mark = len(msgs)
    made = make(n, edges, pick)
    if not finish(made, enums):
        del msgs[mark:]

pairs2 = [(a, b) for a in range(2) for b in range(2)]
for size in range(1, 5):
    for edges in itertools.combinations(pairs2, size):
        for c in range(10):
            for enums in (False, True): attempt(2, edges, lambda e: c, enums)
done = set()
pairs3 = [(a, b) for a in range(3) for b in range(3)]
for size in range(2, 10):
    for edges in itertools.combinations(pairs3, size):
        key = canonical(3, edges)
        if key in done: continue
        done.add(key)
        attempt(3, edges, lambda e: (1, 2, 3, 8, 0)[e % 5], False)
        attempt(3, edges, lambda e: (6, 4, 5, 7)[e % 4], False)
        attempt(3, edges, lambda e: (9, 0, 8, 1, 3)[e % 5], True)

# --- Output -----------------------------------------------------------------------------------------------------------
head = '''// Written by gen.py.
#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case)]
use crate::def::*;
use steit::{de::Deserialize, ser::Serialize, meta::HasMeta, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
'''
text = [head]
groups = {}
for module, t in out: groups.setdefault(module, []).append(t)
for module, ts in groups.items():
    if module is None:
        text += ts
    else:
        text.append(f'pub mod {module} {{ use super::*;')
        text += ts
        text.append('}')
text.append('pub static MSGS: &[Msg] = &[')
for m in msgs:
    params = ', '.join(f'"{p}"' for p in m['params'])
    text.append(f'Msg {{ rust: "{m["name"]}", cs: {opt(m["cs"])}, params: &[{params}], builtin: {str(m["builtin"]).lower()}, kind: {m["kind"]} }},')
text.append('];')
# Roots are split, as a function with thousands of statements is slow to compile.
n = 0
parts = []
for a in range(0, len(roots), 100):
    parts.append(f'roots{n}')
    text.append(f'fn roots{n}(to: &mut Vec<Root>) {{')
    for r, e, s, f in roots[a:a + 100]:
        text.append(f'to.push({"state_root" if s else "root"}::<{r}>(r#"{r}"#, const {{ &{e} }}, "{f}"));')
    text.append('}')
    n += 1
text.append('pub fn roots() -> Vec<Root> { let mut to = Vec::new(); ' + ' '.join(f'{p}(&mut to);' for p in parts) + ' to }')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'src', 'schemas.rs'), 'w').write('\n'.join(text) + '\n')
print(len(msgs), 'messages', len(roots), 'roots', len(exprs), 'types')
