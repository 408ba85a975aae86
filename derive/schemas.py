"""Enumerates schemas, each with a verdict: whether the derive should accept it.

The verdict is worked out from what a schema is made of, by rules written down here without looking at how the derive
goes about it. A schema is (family, text, ok); its text is a single line of items.
"""
import itertools, os, re

MAX = 0x1FFFFFFF
TAGS = [None, 0, 1, 2, MAX, MAX + 1, 2**32 - 1, 2**32]
FLAG, STR, LIST, INT = ('path', 'bool'), ('str',), ('list',), ('int',)
FIELD = {'tag': INT, 'no_hash': FLAG, 'no_eq_hash': FLAG, 'no_state': FLAG, 'csharp_name': STR}
VARIANT = {'tag': INT, 'reserved_tags': LIST, 'no_size_cache': FLAG, 'size_cache_renamed': STR,
           'runtime_renamed': STR, 'csharp_name': STR}
TYPE = {'reserved_tags': LIST, 'no_size_cache': FLAG, 'derive_ctors': FLAG, 'derive_setters': FLAG, 'no_meta': FLAG,
        'steit_owned': FLAG, 'ctor_prefix': STR, 'size_cache_renamed': STR, 'runtime_renamed': STR, 'csharp_name': STR}
OPTIONS = {'field': FIELD, 'variant': VARIANT, 'type': TYPE}
STEIT = ['Serialize', 'Deserialize', 'State', 'PartialEq', 'Default', 'Hash']


class Item:
    """One option in an attribute: `name`, `name = value` or `name(values)`, or a bare literal."""

    def __init__(self, name, form, value=None):
        self.name, self.form, self.value = name, form, value

    def __str__(self):
        n, f, v = self.name, self.form, self.value
        if f == 'path': return n
        if n == 'steit_owned' and f == 'bool': return 'steit_owned = false'
        if f == 'bool': return f'{n} = {str(True if v is None else v).lower()}'
        if f == 'int': return f'{n} = {1 if v is None else v}'
        if f == 'str': return f'{n} = "{n[:3] + "x" if v is None else v}"'
        if f == 'list': return '%s(%s)' % (n, ', '.join(map(str, [7] if v is None else v)))
        if f == 'strs': return f'{n}("a")'
        if f == 'paths': return f'{n}(a)'
        if f == 'lit': return '5'
        if f == 'strlit': return '"a"'
        if f == 'neg': return f'{n} = -1'
        if f == 'float': return f'{n} = 1.0'
        if f == 'char': return f"{n} = 'a'"
        raise ValueError(f)


def tag(t): return [] if t is None else [Item('tag', 'int', t)]
def reserved(r): return [] if r is None else [Item('reserved_tags', 'list', r)]


class Attrs:
    """All `#[steit(..)]` of something: lists of items, or malformed attributes."""

    def __init__(self, *groups): self.groups = [g for g in groups if g != []]

    def __str__(self):
        return ''.join(f'#[{g}] ' if isinstance(g, str) else '#[steit(%s)] ' % ', '.join(map(str, g)) for g in self.groups)

    def items(self): return [i for g in self.groups if not isinstance(g, str) for i in g]

    def ok(self, place):
        seen = set()
        for g in self.groups:
            if isinstance(g, str) and re.match(r'steit\b(?!\(\))', g): return False
        for i in self.items():
            forms = OPTIONS[place].get(i.name)
            if i.form in ('lit', 'strlit') or forms is None or i.form not in forms: return False
            if i.name in seen and i.name != 'reserved_tags': return False
            if i.form == 'int' and i.value is not None and not 0 <= i.value < 2**32: return False
            if i.form == 'list' and any(not 0 <= v < 2**32 for v in i.value or []): return False
            seen.add(i.name)
        return True

    def tag(self):
        for i in self.items():
            if i.name == 'tag' and i.form == 'int': return 1 if i.value is None else i.value

    def reserved(self):
        return {v for i in self.items() if i.name == 'reserved_tags' for v in ([7] if i.value is None else i.value)}


class Fields:
    """Fields: shape `named`, `tuple` or `unit`, and a list of (name, type, attributes)."""

    def __init__(self, shape, fields, vis='pub '): self.shape, self.fields, self.vis = shape, fields, vis

    def text(self, vis):
        if self.shape == 'unit': return ''
        if self.shape == 'tuple': return '(%s)' % ', '.join(f'{a}{vis}{t}' for _, t, a in self.fields)
        return ' { %s }' % ', '.join(f'{a}{vis}{n}: {t}' for n, t, a in self.fields)

    def ok(self, taken): return all(a.ok('field') for _, _, a in self.fields) and tags_ok([a for _, _, a in self.fields], taken)


def tags_ok(attrs, taken):
    tags = [a.tag() for a in attrs]
    return all(t is not None and t <= MAX and t not in taken for t in tags) and len(set(tags)) == len(tags)


def derive(ds): return '#[steit_derive%s]' % ('(%s)' % ', '.join(map(str, ds)) if ds is not None else '')


def struct(family, fields, attrs=Attrs(), ds=('State',), generics='', where='', name='S', outer='', extra=True):
    text = f'{derive(ds)} {outer}{attrs}pub struct {name}{generics}'
    text += f'{where}{fields.text("pub ")}' if fields.shape == 'named' else f'{fields.text("pub ")}{where};'
    if fields.shape == 'unit' and False: text += ';'
    return family, text, bool(extra and attrs.ok('type') and fields.ok(attrs.reserved()))


def enum(family, variants, attrs=Attrs(), ds=('State',), generics='', where='', name='E', outer='', extra=True):
    """Variants are (name, attributes, fields)."""
    text = f'{derive(ds)} {outer}{attrs}pub enum {name}{generics}{where} {{ %s }}' % ', '.join(f'{a}{n}{f.text("")}' for n, a, f in variants)
    ok = extra and attrs.ok('type') and tags_ok([a for _, a, _ in variants], attrs.reserved())
    ok = ok and 0 in [a.tag() for _, a, _ in variants]
    ok = ok and all(a.ok('variant') and f.ok(a.reserved()) for _, a, f in variants)
    return family, text, bool(ok)


def u8s(tags, types=('u8', 'List<u8>', 'u32')):
    return [('abcd'[i], types[i % len(types)], Attrs(tag(t))) for i, t in enumerate(tags)]


UNIT = Fields('unit', [])


def shapes(n): return ['unit', 'named', 'tuple'] if n == 0 else ['named', 'tuple']


RESERVED = [None, [0], [1, 2], [MAX], []]
DERIVES = [('State',), ('Serialize',), ('Deserialize',), ('State', 'PartialEq', 'Hash'), ('Serialize', 'Deserialize', 'Debug', 'Clone')]


def struct_tags(thorough):
    """Structs with up to 3 fields with all combinations of tags, and reserved tags."""
    for n in range(4):
        for tags in itertools.product(TAGS, repeat=n):
            few = n == 3 and not thorough
            for k, r in enumerate(RESERVED):
                for j, shape in enumerate(shapes(n)):
                    if few and (k + j + sum(TAGS.index(t) for t in tags)) % 10: continue
                    ds = DERIVES if thorough and n < 3 else DERIVES[:1]
                    for d in ds:
                        yield struct('tags of fields', Fields(shape, u8s(tags)), Attrs(reserved(r)), d)
    for r in [[2**32], [MAX + 1], [0, 0], [5, 2**32 - 1], [2**64]]:
        yield struct('reserved tags', Fields('named', u8s([1])), Attrs(reserved(r)))
        yield enum('reserved tags', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), UNIT)], Attrs(reserved(list(map(lambda x: x or 9, r)))))
        yield enum('reserved tags', [('A', Attrs(tag(0), reserved(r)), Fields('tuple', u8s([1])))])
    for text in ['0x7', '0b111', '0o7', '1_0', '0x1fff_ffff']:
        for t in ['State', 'Serialize']:
            yield 'tags of fields', f'#[steit_derive({t})] pub struct S {{ #[steit(tag = {text})] pub a: u8, #[steit(tag = 0)] pub b: u8 }}', True
            yield 'tags of fields', f'#[steit_derive({t})] pub struct S {{ #[steit(tag = {text})] pub a: u8, #[steit(tag = {int(text, 0)})] pub b: u8 }}', False
            yield 'tags of variants', f'#[steit_derive({t})] pub enum S {{ #[steit(tag = {text})] A, #[steit(tag = 0)] B }}', True
            yield 'reserved tags', f'#[steit_derive({t})] #[steit(reserved_tags({text}))] pub enum S {{ #[steit(tag = {int(text, 0)})] A, #[steit(tag = 0)] B }}', False
            yield 'reserved tags', f'#[steit_derive({t})] #[steit(reserved_tags({text}))] pub struct S {{ #[steit(tag = {int(text, 0)})] a: u8 }}', False
    if thorough:
        for tags in itertools.product([0, 1, MAX], repeat=4):
            for r in RESERVED:
                yield struct('tags of fields', Fields('named', u8s(tags)), Attrs(reserved(r)))
    # Many fields, up to and beyond what fits in tables of small size.
    for n in [16, 17, 33, 64, 130]:
        names = [f'x{i}' for i in range(n)]
        for dup in (False, True):
            tags = [i * 3 for i in range(n)]
            if dup: tags[-1] = tags[n // 2]
            yield struct('many fields', Fields('named', [(x, 'u8', Attrs(tag(t))) for x, t in zip(names, tags)]))
            yield struct('many fields', Fields('tuple', [(x, 'u8', Attrs(tag(t))) for x, t in zip(names, reversed(tags))]))
            yield enum('many variants', [('V' + x, Attrs(tag(t)), UNIT) for x, t in zip(names, tags)])


def enum_tags(thorough):
    """Enums with up to 3 variants with all combinations of tags, reserved tags, fields, and tags reserved in a variant."""
    for d in DERIVES + [('Hash',), ('PartialEq',), ('Default',), ()]:
        yield 'no variants', f'{derive(d)} pub enum E {{}}', False
        yield enum('tags of variants', [('A', Attrs(tag(1)), UNIT)], ds=d)
        yield enum('tags of variants', [('A', Attrs(tag(None)), UNIT)], ds=d)
        yield enum('tags of variants', [('A', Attrs(tag(0)), UNIT)], ds=d)
    for n in range(1, 4):
        for tags in itertools.product(TAGS, repeat=n):
            few = n == 3 and not thorough
            for k, r in enumerate(RESERVED):
                if few and (k + sum(TAGS.index(t) for t in tags)) % 10: continue
                # With fields whose tags are those of variants, as the two have nothing to do with each other.
                f = [UNIT, Fields('named', u8s([2, 0])), Fields('tuple', u8s([MAX]))]
                vs = [('ABCD'[i], Attrs(tag(t)), f[(i + k) % 3]) for i, t in enumerate(tags)]
                yield enum('tags of variants', vs, Attrs(reserved(r)))
    inner = [[]] + [[t] for t in TAGS] + [list(p) for p in itertools.product([None, 0, 1, MAX, MAX + 1], repeat=2)]
    other = [UNIT, Fields('named', u8s([0, 1])), Fields('tuple', u8s([MAX, 0]))]
    for tags in inner:
        for r in [None, [0], [1, 3]] + ([[MAX], []] if thorough else []):
            for i, shape in enumerate(shapes(len(tags))):
                for first in (False, True):
                    v = ('V', Attrs(tag(0 if first else 3), reserved(r)), Fields(shape, u8s(tags)))
                    for o in other if thorough else other[(len(tags) + i) % 3:][:1]:
                        w = ('W', Attrs(tag(3 if first else 0)), o)
                        for top in (None, [1], [5]):
                            yield enum('tags in variants', [v, w] if first else [w, v], Attrs(reserved(top)))
    if thorough:
        for a, b in itertools.product(inner, inner):
            yield enum('tags in variants', [('A', Attrs(tag(0)), Fields('tuple' if a else 'unit', u8s(a))),
                                            ('B', Attrs(tag(9), reserved([1])), Fields('named', u8s(b)))])


FORMS = ['path', 'bool', 'int', 'str', 'list', 'strs', 'paths', 'lit', 'strlit', 'neg', 'float', 'char']


def places(attr, ds=('State',)):
    """A well-formed schema, but for the attributes given, put in each place; those it has get separate."""
    def merged(a): return Attrs(*a)
    ok_fields = lambda: Fields('named', u8s([0, 2]))
    yield 'type', lambda gs: struct('options', ok_fields(), merged(gs), ds)
    yield 'type', lambda gs: struct('options', UNIT, merged(gs), ds)
    yield 'type', lambda gs: struct('options', Fields('tuple', u8s([0, 2])), merged(gs), ds)
    yield 'type', lambda gs: enum('options', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(2)), ok_fields())], merged(gs), ds)
    for shape in ('named', 'tuple'):
        f = lambda gs: Fields(shape, [('a', 'u8', Attrs(tag(0))), ('b', 'u8', merged([tag(2)] * with_tag(gs) + gs)), ('c', 'u8', Attrs(tag(3)))])
        yield 'field', lambda gs, f=f: struct('options', f(gs), ds=ds)
        yield 'field', lambda gs, f=f: enum('options', [('A', Attrs(tag(0)), f(gs)), ('B', Attrs(tag(2)), UNIT)], ds=ds)
    for f in (UNIT, Fields('named', u8s([0, 2])), Fields('tuple', u8s([0, 2]))):
        yield 'variant', lambda gs, f=f: enum('options', [('A', Attrs(tag(0)), f), ('B', merged([tag(2)] * with_tag(gs) + gs), f)], ds=ds)


def with_tag(gs): return not any(not isinstance(g, str) and any(i.name == 'tag' for i in g) for g in gs)


def options(thorough):
    """Every option in every place in every form; once, twice, and together with all others."""
    names = sorted({n for o in OPTIONS.values() for n in o}) + ['unknown', 'Tag', 'r#tag', 'steit::tag', 'tag_', 'names']
    for place, make in places(None):
        for bad in ['steit', 'steit = 1', 'steit = "a"', 'steit = tag', 'steit(= 1)', 'steit(tag: 1)', 'steit(tag == 1)', 'steit()', 'steit[tag = 9]' , 'steit{}']:
            if bad in ('steit[tag = 9]', 'steit{}'): continue
            yield make([bad])
        for name in names:
            for form in FORMS:
                item = Item(name, form)
                yield make([[item]])
        for name, forms in OPTIONS[place].items():
            if name == 'reserved_tags': continue
            for a in forms:
                for b in FORMS:
                    if b in ('lit', 'strlit'): continue
                    yield make([[Item(name, a), Item(name, b)]])
                    yield make([[Item(name, a)], [Item(name, b)]])
            if forms == FLAG:
                for v in (False, True):
                    yield make([[Item(name, 'bool', v)]])
                    yield make([[Item(name, 'bool', v), Item(name, 'bool', not v)]])
        # All options at once, in both orders, as one attribute and as several.
        usable = {n: f for n, f in OPTIONS[place].items() if n != 'steit_owned'}
        everything = [Item(n, f[0], 9 if n == 'tag' else None) for n, f in usable.items()]
        for items in (everything, everything[::-1]):
            yield make([items])
            yield make([[i] for i in items])
            yield make([items + [Item('unknown', 'path')]])
            yield make([items[:2] + [Item('', 'lit')] + items[2:]])
        # All pairs of options.
        for a, b in itertools.combinations(everything, 2):
            yield make([[a, b]])
            if thorough: yield make([[b], [a]])
        if thorough:
            for bits in range(1 << len(everything)):
                yield make([[i for k, i in enumerate(everything) if bits >> k & 1]])
    for d in DERIVES[1:]:
        for place, make in places(None, d):
            for name, forms in OPTIONS[place].items():
                for form in forms:
                    yield make([[Item(name, form, False if form == 'bool' else None)]])
    # Arguments of the derive itself.
    body = ' pub struct S { #[steit(tag = 0)] pub a: u8 }'
    for ebody in (body, ' pub enum E { #[steit(tag = 0)] A, #[steit(tag = 1)] B { #[steit(tag = 1)] a: u8 } }'):
        for d in STEIT:
            yield 'derives', derive([d, d]) + ebody, False
            yield 'derives', derive([d, 'State', d]) + ebody, False
            yield 'derives', derive([f'{d} = true']) + ebody, False
            yield 'derives', derive([f'{d}()']) + ebody, False
            yield 'derives', derive([f'"{d}"']) + ebody, False
        for d in ['Unknown', 'state', '5', 'State, Unknown', 'tag = 1', 'State, 5', 'State = 1', '= 1', 'State State']:
            yield 'derives', derive([d]) + ebody, False
        for d in [None, [], ['Debug'], ['Clone', 'Debug', 'State'], ['std::fmt::Debug', 'State'], ['State', 'PartialEq', 'Eq', 'Hash'], ['Debug', 'Clone', 'Copy']]:
            ok = derive(d) + ebody
            if d is None or 'State' in d or 'Debug' in d or not d:
                yield 'derives', ok.replace('#[steit(tag = 0)] A, #[steit', '#[steit(tag = 0)] A, #[steit'), True


def wrong(thorough):
    """Items which no derive makes sense for, and malformed attributes."""
    for d in DERIVES + [('Hash',), ('PartialEq',), ('Default',), ()]:
        yield 'unions', f'{derive(d)} pub union U {{ #[steit(tag = 0)] a: u8, #[steit(tag = 1)] b: u32 }}', False
        yield 'unions', f'{derive(d)} pub union U {{ a: u8 }}', False
        for g, t in [('<const N: usize>', 'u8'), ('<const N: usize>', '[u8; 2]'), ('<T, const N: usize>', 'T'), ('<const B: bool, T>', 'T'), ("<'a, const N: u8>", "&'a str")]:
            fs = [('a', t, Attrs(tag(0)))]
            yield struct('const generics', Fields('named', fs), ds=d, generics=g, extra=False)
            yield struct('const generics', Fields('tuple', fs), ds=d, generics=g, extra=False)
            yield enum('const generics', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), Fields('tuple', fs))], ds=d, generics=g, extra=False)
        for item in ['fn f() {}', 'mod m {}', 'trait T {}', 'type T = u8;', 'const C: u8 = 1;', 'static C: u8 = 1;', 'impl X {}', 'use std::fmt;']:
            yield 'other items', f'{derive(d)} {item}', False


def generics(thorough):
    """Type parameters, their bounds and defaults, lifetimes, and where clauses."""
    uses = ['T', 'List<T>', 'Map<u32, T>', 'Maybe<T>', 'Box<T>', 'List<Map<u8, Box<T>>>', '(T)', 'Maybe<List<T>>', 'Map<u16, List<Maybe<T>>>']
    bounds = [('<T>', ''), ('<T: Clone>', ''), ('<T: Clone + std::fmt::Debug>', ''), ('<T: State>', ''), ('<T>', ' where T: Clone'), ('<T>', ' where T: State, List<T>: Clone'),
              ('<T: State = u8>', ''), ('<T: State,>', ''), ('<T: State>', ' where')]
    for d in [('State',), ('State', 'PartialEq'), ('State', 'Debug', 'Clone'), ('State', 'PartialEq', 'Hash', 'Clone')]:
        for g, w in bounds:
            # What the fields need of a parameter, the user has to ask for.
            if 'State' not in g + w: g = g.replace('T:', 'T: State +').replace('<T>', '<T: State>')
            for u in uses:
                if 'Map' in u and 'Hash' in d: continue
                if 'Debug' in d and '<T: State' in g and 'Debug' not in g and False: continue
                for shape in ('named', 'tuple'):
                    yield struct('generics', Fields(shape, [('a', u, Attrs(tag(0)))]), ds=d, generics=g, where=w)
                    yield enum('generics', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), Fields(shape, [('a', u, Attrs(tag(0))), ('b', 'u8', Attrs(tag(1)))]))], ds=d, generics=g, where=w)
    for d in [('Serialize',), ('Deserialize',), ('Serialize', 'Deserialize', 'PartialEq'), ('Default',), ('PartialEq', 'Hash'), ('Serialize', 'Debug', 'Clone')]:
        for g, w in [('<T>', ''), ('<T: Clone>', ''), ('<T>', ' where T: Clone'), ('<T = u8>', '')]:
            for u in ['T', 'Box<T>', 'Vec<T>', 'Option<T>', '[T; 3]']:
                if 'Default' in d and '[' in u or 'Deserialize' in d and u.startswith('[') and False: continue
                for shape in ('named', 'tuple'):
                    yield struct('generics', Fields(shape, [('a', u, Attrs(tag(0)))]), ds=d, generics=g, where=w)
                    yield enum('generics', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), Fields(shape, [('a', u, Attrs(tag(0)))]))], ds=d, generics=g, where=w)
    for d in [('State',), ('State', 'PartialEq', 'Clone'), ('State', 'Hash')]:
        fs = [('a', 'T', Attrs(tag(0))), ('b', 'List<U>', Attrs(tag(1))), ('c', 'T', Attrs(tag(2)))]
        for g in ['<T: State, U: State>', '<T: State, U: State + Clone>', '<U: State, T: State>']:
            yield struct('generics', Fields('named', fs), ds=d, generics=g)
            yield struct('generics', Fields('tuple', fs), ds=d, generics=g)
            yield enum('generics', [('A', Attrs(tag(0)), Fields('named', fs)), ('B', Attrs(tag(1)), Fields('tuple', fs))], ds=d, generics=g)
    for d in [('Serialize',), ('Serialize', 'PartialEq'), ('Serialize', 'Hash', 'Debug', 'Clone')]:
        for g, w in [("<'a>", ''), ("<'a, 'b: 'a>", ''), ("<'a, 'b>", " where 'b: 'a")]:
            fs = [('a', "&'a str", Attrs(tag(0))), ('b', "&'a str" if "'b" not in g else "&'b str", Attrs(tag(1)))]
            for shape in ('named', 'tuple'):
                yield struct('lifetimes', Fields(shape, fs), ds=d, generics=g, where=w)
                yield enum('lifetimes', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), Fields(shape, fs))], ds=d, generics=g, where=w)


def combinations(thorough):
    """Subsets of what can be derived, with options affecting what gets derived."""
    opts = ['no_size_cache', 'derive_ctors', 'derive_setters', 'no_meta']
    sets = list(itertools.product([0, 1], repeat=4)) if thorough else [(0,) * 4, (1,) * 4] + [tuple(int(i == k) for i in range(4)) for k in range(4)]
    for bits in itertools.product([0, 1], repeat=6):
        d = [x for x, b in zip(STEIT, bits) if b]
        for more in [[], ['Debug', 'Clone']] + ([['Eq']] if 'PartialEq' in d else []):
            if more and not thorough and sum(bits) % 3: continue
            for s in sets:
                a = Attrs([Item(o, 'path') for o, b in zip(opts, s) if b])
                # Values of plain fields: nothing which could not do what is derived.
                f = u8s([0, 5, 2], ('u8', 'Bx', 'u32')) if False else u8s([0, 5, 2], ('u8', 'bool', 'u32'))
                yield struct('derives', Fields('named', f), a, d + more)
                yield struct('derives', Fields('tuple', f), a, d + more)
                yield struct('derives', UNIT, a, d + more)
                yield enum('derives', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(3)), Fields('named', f)), ('C', Attrs(tag(1)), Fields('tuple', f))], a, d + more)


def types(thorough):
    """Types of fields."""
    plain = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool']
    state = plain + ['List<u8>', 'Map<u8, u8>', 'Map<u16, i32>', 'Map<u32, List<u8>>', 'Maybe<u8>', 'Box<u8>', 'Other', 'OtherEnum', 'Box<Other>', 'List<Other>',
                     'Map<u32, Box<Other>>', 'Maybe<Maybe<OtherEnum>>', 'Gen<u8>', 'Gen<Gen<List<Other>>>', 'GenEnum<Maybe<Other>>', 'Alias', 'super::common::Other',
                     'crate::common::OtherEnum', 'super::common::Gen<crate::common::Other>', 'self::Alias', 'std::boxed::Box<u8>', '(u8)', '(((Other)))', 'List<(u8)>',
                     'super::Map<u8, super::List<bool>>', 'List<Alias>', '::std::boxed::Box<::steit::types::List<u8>>']
    data = plain + ['String', 'Vec<u8>', 'Vec<String>', 'Option<u8>', 'Option<Vec<Data>>', 'Bytes', '[u8; 1]', '[Data; 3]', '[[u8; 2]; 2]', 'Box<String>', 'Data', 'Option<Box<Data>>', 'List<u8>',
                    'Map<u8, Other>', 'Vec<Other>', 'Maybe<u8>', 'std::string::String', 'std::vec::Vec<u8>', '::std::string::String', '(String)', 'Vec<(u8)>', 'Vec<[Option<u8>; 2]>']
    unmeta = ['(u8, String)', '(u8, u8, u8, u8, u8, u8)', 'std::collections::HashMap<u8, u8>', 'std::collections::HashMap<String, Vec<Data>>', 'Vec<(u8, u16)>', 'Option<std::collections::HashMap<u8, bool>>']
    outer = 'pub type Alias = List<u8>; '
    for ty in state:
        for d in [('State',), ('Serialize', 'Deserialize'), ('Serialize',), ('Deserialize', 'Debug', 'Clone')]:
            for shape in ('named', 'tuple'):
                f = [('x', 'u8', Attrs(tag(1))), ('a', ty, Attrs(tag(0)))]
                for s in (struct('types', Fields(shape, f), ds=d), enum('types', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), Fields(shape, f))], ds=d)):
                    yield s[0], outer + s[1], s[2]
    for ty in data + unmeta:
        for d in [('Serialize', 'Deserialize'), ('Serialize',), ('Deserialize', 'Debug', 'Clone'), ('Serialize', 'Deserialize', 'PartialEq')]:
            a = Attrs([Item('no_meta', 'path')]) if ty in unmeta and 'Deserialize' in d else Attrs()
            for shape in ('named', 'tuple'):
                f = [('x', 'u8', Attrs(tag(1))), ('a', ty, Attrs(tag(0)))]
                yield struct('types', Fields(shape, f), a, ds=d)
                yield enum('types', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), Fields(shape, f))], a, ds=d)
    # Fields which are no state may have any type which can be encoded, even within a state.
    for ty in data + unmeta:
        a = Attrs([Item('no_meta', 'path')]) if ty in unmeta else Attrs()
        f = [('x', 'u8', Attrs(tag(1))), ('a', ty, Attrs(tag(0) + [Item('no_state', 'path')]))]
        for shape in ('named', 'tuple'):
            yield struct('types', Fields(shape, f), a)
            yield enum('types', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), Fields(shape, f))], a)
    # Recursion.
    for ty in ['Box<S>', 'List<S>', 'Map<u8, S>', 'Maybe<Box<S>>', 'List<Self>']:
        if 'Self' in ty: continue
        boxed = ty.startswith('Box')
        for shape in ('named', 'tuple'):
            f = [('x', 'u8', Attrs(tag(1))), ('a', ty, Attrs(tag(0)))]
            if not boxed and 'Maybe' not in ty: yield struct('recursion', Fields(shape, f), name='S')
            yield enum('recursion', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), Fields(shape, f))], name='S')
            if 'Map' not in ty: yield enum('recursion', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), Fields(shape, f))], name='S', ds=('State', 'PartialEq', 'Debug', 'Clone'))


KEYWORDS = '''as async await become box break const continue crate do dyn else enum extern false final fn for if impl in let loop macro
match mod move mut override priv pub ref return self Self static struct super trait true try type typeof union unsafe unsized use virtual where while yield'''.split()
RAW = [k for k in KEYWORDS if k not in ('crate', 'self', 'Self', 'super')]


def identifiers():
    """Identifiers in the source of the derive: names which it might confuse with those of the user."""
    found = set()
    top = '/repo/steit-derive/src'
    for d, _, files in os.walk(top):
        for f in files:
            found |= set(re.findall(r'\b[A-Za-z_][A-Za-z_0-9]*\b', open(os.path.join(d, f), errors='replace').read()))
    return sorted(f for f in found if f not in KEYWORDS and f not in ('_', '__'))


LOWER = '''a b e f f0 f1 f2 i k key len n new none other out path r result s self_ some state str string t tag this tmp v val value values variant writer x reader runtime_ size size_cache_
o_size error entry item items kind log logger name old parent print res root set set_runtime handle hash hasher hash_state field_number wire_type default compute_size serialize_cached merge
nested result_ other_a x_other x_a y __a __self __other _a a_ a0 args meta links bool_ u8_ tags cache cached_size std_ steit_ io core alloc'''.split()


def names(thorough):
    """Names of fields, variants, types and type parameters."""
    ids = identifiers()
    lower = sorted(set(i for i in ids if i[0].islower() or i[0] == '_') | set(LOWER))
    for i in lower:
        if i in ('runtime', 'size_cache'): continue
        for j in ['zz'] + ['other_' + i, 'self_' + i, i + '_other'] * thorough:
            f = [(i, 'u8', Attrs(tag(0))), (j, 'List<u8>', Attrs(tag(1))), ('r#' + i if thorough and False else 'yy', 'bool', Attrs(tag(2) + [Item('no_state', 'path')]))]
            yield struct('names of fields', Fields('named', f), ds=('State', 'PartialEq', 'Hash'))
            yield enum('names of fields', [('A', Attrs(tag(0)), Fields('named', f)), ('B', Attrs(tag(1)), UNIT)], ds=('State', 'PartialEq', 'Hash'))
            if not thorough: continue
            g = [(n, t.replace('List', 'Vec'), a) for n, t, a in f]
            yield struct('names of fields', Fields('named', g), ds=('Serialize', 'Deserialize', 'PartialEq', 'Hash'))
            yield enum('names of fields', [('A', Attrs(tag(0)), Fields('named', g)), ('B', Attrs(tag(1)), UNIT)], ds=('Serialize', 'Deserialize', 'PartialEq', 'Hash'))
    for k in RAW:
        f = [('r#' + k, 'u8', Attrs(tag(0))), ('z', 'u8', Attrs(tag(1)))]
        yield struct('raw identifiers', Fields('named', f), ds=('State', 'PartialEq', 'Hash'))
        yield enum('raw identifiers', [('A', Attrs(tag(0)), Fields('named', f)), ('B', Attrs(tag(1)), UNIT)], ds=('State', 'PartialEq', 'Hash'))
        yield struct('raw identifiers', Fields('named', f[1:]), ds=('State', 'PartialEq', 'Hash'), name='r#' + k)
        yield enum('raw identifiers', [('r#' + k, Attrs(tag(0)), Fields('named', f)), ('B', Attrs(tag(1)), UNIT)], ds=('State', 'PartialEq', 'Hash'), name='r#' + k + 's')
    upper = sorted(set(i for i in ids if i[0].isupper() and not i.isupper()) | set('S E T A B C R W H K V Y Err Ok None Some Error Result Vec String Box Write Struct Enum Field Type Self_ State_'.split()))
    for i in upper:
        f = Fields('named', u8s([0, 1], ('u8', 'u8')))
        d = ('State', 'PartialEq', 'Hash')
        yield struct('names of types', f, name=i, ds=d)
        yield enum('names of types', [('A', Attrs(tag(0)), f), ('B', Attrs(tag(1)), UNIT)], name=i, ds=d)
        yield enum('names of variants', [(i, Attrs(tag(0)), f), ('Zz', Attrs(tag(1)), UNIT)], name='Zy', ds=d)
        yield enum('names of variants', [('Zz', Attrs(tag(0)), UNIT), (i, Attrs(tag(1)), UNIT)], name='Zy', ds=d)
        p = Fields('named', [('a', i, Attrs(tag(0)))])
        yield struct('names of parameters', p, generics=f'<{i}: steit::state::State>', name='Zy', ds=d)
        yield enum('names of parameters', [('Zz', Attrs(tag(0)), UNIT), ('Zx', Attrs(tag(1)), p)], generics=f'<{i}: steit::state::State>', name='Zy', ds=d)
    # The fields added by the derive may be renamed, or be left out, to make room for those of the user.
    f = lambda *ns: Fields('named', [(n, 'u8', Attrs(tag(t))) for t, n in enumerate(ns)])
    rename_r, rename_s = Item('runtime_renamed', 'str', 'rt'), Item('size_cache_renamed', 'str', 'sc')
    none_s = Item('no_size_cache', 'path')
    for items, ns in [([rename_r], ['runtime']), ([rename_s], ['size_cache']), ([rename_r, rename_s], ['runtime', 'size_cache']), ([none_s], ['size_cache']),
                      ([none_s, rename_r], ['size_cache', 'runtime', 'sc']), ([Item('runtime_renamed', 'str', 'size_cache'), rename_s], ['runtime']),
                      ([Item('runtime_renamed', 'str', 'size_cache'), Item('size_cache_renamed', 'str', 'runtime')], ['a'])]:
        for d in [('State',), ('State', 'PartialEq', 'Hash')]:
            yield struct('added fields', f(*ns), Attrs(items), d)
            yield enum('added fields', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), f(*ns))], Attrs(items), d)
            yield enum('added fields', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1), items), f(*ns))], Attrs(), d)
    for d, n in [(('Serialize', 'Deserialize'), 'runtime'), (('PartialEq',), 'size_cache'), (('Deserialize',), 'size_cache'), (('Hash', 'Default'), 'size_cache')]:
        yield struct('added fields', f(n, 'a'), ds=d)
        yield enum('added fields', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), f(n, 'a'))], ds=d)
    # Several types next to each other.
    pairs = [('Ab', 'AB'), ('AB', 'A_B'), ('Ab', 'A_b'), ('FooBar', 'Foo_Bar'), ('Foobar', 'FooBar'), ('A1', 'A_1'), ('S', 'SS'), ('FooBar', 'FOO_BAR'), ('FOOBAR', 'F_O_O_B_A_R'), ('S', 's'), ('Ab', 'aB'), ('State_', '_State')]
    for a, b in pairs:
        for d in DERIVES[:2]:
            x = struct('neighbours', Fields('named', u8s([0], ('u8',))), name=a, ds=d)
            y = enum('neighbours', [('A', Attrs(tag(0)), UNIT), ('B', Attrs(tag(1)), Fields('tuple', u8s([0], ('u8',))))], name=b, ds=d)
            yield 'neighbours', x[1] + ' ' + y[1], True


def surroundings(thorough):
    """Where a schema stands, how it is written, and what else is attached to it."""
    s = 'pub struct S { #[steit(tag = 0)] pub a: u8, #[steit(tag = 1)] pub b: List<u8> }'
    t = 'pub struct S(#[steit(tag = 0)] pub u8, #[steit(tag = 1)] pub List<u8>);'
    e = 'pub enum S { #[steit(tag = 0)] A, #[steit(tag = 1)] B { #[steit(tag = 0)] b: List<u8> }, #[steit(tag = 2)] C(#[steit(tag = 0)] u8) }'
    for body in (s, t, e):
        for d in ['#[steit_derive(State)]', '#[steit_derive(State,)]', '#[steit::steit_derive(State)]', '#[::steit::steit_derive(State)]', '#[steit_derive(State, PartialEq, Hash)]']:
            x = f'{d} {body}'
            yield 'surroundings', x, True
            yield 'surroundings', f'pub fn f() {{ {x} let _ = <S as std::default::Default>::default(); }}', True
            yield 'surroundings', f'pub mod inner {{ use super::*; {x} }}', True
            yield 'surroundings', f'pub const C: u8 = {{ {x} 5 }};', True
            yield 'surroundings', f'/// Documented. \n'.strip() * 0 + f'#[doc = "a"] #[allow(dead_code)] {x}', True
            yield 'surroundings', f'{d} #[doc = "a"] #[allow(dead_code)] #[derive(Debug, Clone)] {body}', True
            yield 'surroundings', f'#[derive(Debug)] {x}' if False else f'{d} #[derive(Debug)] {body}', True
            yield 'surroundings', x.replace('#[steit(tag', '#[doc = "b"] #[allow(unused)] #[steit(tag'), True
            yield 'surroundings', x.replace('1)]', '1)] #[doc = "b"]'), True
            yield 'surroundings', x.replace('1)]', '1,)]'), True
            yield 'surroundings', x.replace('#[steit(tag = 1)]', '#[steit()] #[steit(tag = 1)] #[steit()]'), True
            yield 'surroundings', x.replace('pub struct', 'struct').replace('pub enum', 'pub(crate) enum'), True
            yield 'surroundings', x.replace('pub ', 'pub(super) '), True
            # Made by macros.
            yield 'macros', f'macro_rules! m {{ () => {{ {x} }} }} m!();', True
            m = x.replace('List<u8>', '$t').replace('S', '$n', 0)
            yield 'macros', f'macro_rules! m {{ ($t:ty) => {{ {m} }} }} m!(List<u8>);', True
            yield 'macros', f'macro_rules! m {{ ($t:ty) => {{ {m.replace("$t", "List<$t>")} }} }} m!(u8);', True
            yield 'macros', f'macro_rules! m {{ ($t:ident) => {{ {m.replace("$t", "$t<u8>")} }} }} m!(List);', True
            yield 'macros', f'macro_rules! m {{ ($t:path) => {{ {m} }} }} m!(List<u8>);', True
            yield 'macros', f'macro_rules! m {{ ($t:tt) => {{ {x.replace("tag = 1", "tag = $t")} }} }} m!(1);', True
            yield 'macros', f'macro_rules! m {{ ($t:literal) => {{ {x.replace("tag = 1", "tag = $t")} }} }} m!(1);', True
            yield 'macros', f'macro_rules! m {{ ($t:literal) => {{ {x.replace("tag = 1", "tag = $t")} }} }} m!(0);', body is not e and False
            if body is s: yield 'macros', f'macro_rules! m {{ ($v:vis $n:ident {{ $($f:ident : $t:ty = $g:literal),* }}) => {{ {d} $v struct $n {{ $(#[steit(tag = $g)] $f: $t),* }} }} }} m!(pub S {{ a: u8 = 0, b: Map<u8, List<u8>> = 1 }});'.replace('PartialEq, Hash', 'PartialEq'), True


FAMILIES = [struct_tags, enum_tags, options, wrong, generics, combinations, types, names, surroundings]


def schemas(thorough):
    seen = set()
    for family in FAMILIES:
        for s in family(thorough):
                # Only the crate itself may own a schema.
            if s[1] not in seen and not re.search(r'\(steit_owned\b(?! = false)|, steit_owned\b(?! = false)', s[1]):
                seen.add(s[1])
                yield s


def subject(s):
    """What a schema is about, if it is about a name."""
    family, text, _ = s
    if family == 'names of types': return re.search(r'pub (?:struct|enum) (\w+)', text)[1]
    if family == 'names of parameters': return re.search(r'<(\w+):', text)[1]
    return text
