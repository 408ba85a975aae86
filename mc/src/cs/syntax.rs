//! Reads C# source (the part of the language a client and its generated code are written in).

use std::{
    cell::{Cell, OnceCell, RefCell},
    rc::Rc,
};

use super::{
    fast::HashMap,
    load::{NameRes, Ty},
};

pub type Sym = u32;

macro_rules! syms {
    ($($name:ident)*) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[repr(u32)]
        enum Known { $($name),* }
        /// Names which are known in advance.
        #[allow(non_upper_case_globals, dead_code)]
        pub mod s {
            use super::{Known, Sym};
            $(pub const $name: Sym = Known::$name as Sym;)*
        }
        const KNOWN: &[&str] = &[$(stringify!($name)),*];
    };
}

syms! {
    Item Count Add RemoveAt Remove Clear Contains ContainsKey TryGetValue Keys Values Length Items Dictionary
    Insert IndexOf AddRange RemoveRange Reverse ToArray ToList Invoke HasValue Value GetValueOrDefault
    FullName Name IsAssignableFrom GetConstructor GetMethod GetType ToString Equals GetHashCode Message
    AppendFormat Append AppendLine Format Join Concat IsNullOrEmpty AsReadOnly Empty UTF8 GetString GetBytes
    Error Out WriteLine Write Select Where Any All First FirstOrDefault Last LastOrDefault Skip Take Sum Max Min
    Cast OfType SequenceEqual Aggregate Key MaxValue MinValue Copy Resize CreateInstance BlockCopy
    CopyTo CopyFrom ToUpper ToLower StartsWith EndsWith Substring Trim Range Repeat Fill Find FindIndex Exists
    ForEach InnerException GetRange InsertRange ElementAt ToDictionary TryAdd Push Pop Peek Enqueue Dequeue
    List IList ICollection IEnumerable IReadOnlyList IReadOnlyCollection IDictionary IReadOnlyDictionary
    KeyValuePair ReadOnlyCollection ReadOnlyDictionary Func Action EventHandler EventArgs Type ConstructorInfo
    MethodInfo Exception StringBuilder Console Array Encoding Math Convert Nullable Object Activator Enumerable
    HashSet Stack Queue Buffer TextWriter Enum IEquatable IDisposable Dispose Tuple ValueTuple Delegate
    Collection BindingFlags Attribute GetGenericTypeDefinition MakeGenericType GetGenericArguments IsGenericType
    IsValueType IsEnum IsInterface IsClass IsSubclassOf ReferenceEquals ParameterInfo GetEnumerator
    Byte SByte Int16 UInt16 Int32 UInt32 Int64 UInt64 Char Boolean String Single Double Void
    this_ value var Main nameof Parse TryParse Abs DynamicInvoke CompareTo Predicate Comparison Lazy Sort
    OrderBy Distinct Zip SelectMany SkipWhile TakeWhile Union Except Intersect Default Prepend
    IsDefined GetUpperBound Rank LongLength Clone SetValue GetValue BaseType Namespace AssemblyQualifiedName
    PadLeft PadRight Split Replace IndexOfAny IsNullOrWhiteSpace ToCharArray Capacity TrimExcess UnixEpoch
    IEnumerator MoveNext Current Reset UTF8Encoding
}

thread_local! {
    static NAMES: RefCell<(HashMap<Rc<str>, Sym>, Vec<Rc<str>>)> = RefCell::new({
        let mut all = (HashMap::default(), Vec::new());
        for name in KNOWN {
            let name: Rc<str> = name.trim_end_matches('_').into();
            all.0.insert(name.clone(), all.1.len() as Sym);
            all.1.push(name);
        }
        all
    });
}

pub fn sym(name: &str) -> Sym {
    NAMES.with(|n| {
        let (map, list) = &mut *n.borrow_mut();
        if let Some(sym) = map.get(name) {
            return *sym;
        }
        let name: Rc<str> = name.into();
        let sym = list.len() as Sym;
        map.insert(name.clone(), sym);
        list.push(name);
        sym
    })
}

pub fn name(sym: Sym) -> Rc<str> {
    NAMES.with(|n| n.borrow().1[sym as usize].clone())
}

// ---------------------------------------------------------------- tokens

#[derive(Clone, PartialEq, Debug)]
pub enum Tok {
    Ident(Sym, bool),
    Int(u64, &'static str),
    Str(Rc<str>),
    /// Parts of an interpolated string: text, and source of expressions with formats.
    Interp(Vec<(Rc<str>, Option<Rc<str>>)>),
    Char(char),
    Op(&'static str),
    End,
}

const OPS: &[&str] = &[
    "<<=", ">>=", "??=", "=>", "==", "!=", "<=", ">=", "&&", "||", "??", "?.", "++", "--", "+=", "-=", "*=", "/=",
    "%=", "&=", "|=", "^=", "->", "::", "<<", "{", "}", "(", ")", "[", "]", ";", ",", ".", ":", "?", "<", ">", "=",
    "+", "-", "*", "/", "%", "&", "|", "^", "!", "~",
];

fn escape(c: &[char], i: &mut usize) -> Result<char, String> {
    let e = c.get(*i).copied().ok_or("unterminated escape")?;
    *i += 1;
    Ok(match e {
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        '0' => '\0',
        'a' => '\x07',
        'b' => '\x08',
        'f' => '\x0c',
        'v' => '\x0b',
        '\\' | '\'' | '"' => e,
        'u' | 'x' => {
            let mut n = 0;
            let mut v = 0;
            while n < 4 {
                match c.get(*i).and_then(|d| d.to_digit(16)) {
                    Some(d) => v = v * 16 + d,
                    None => break,
                }
                *i += 1;
                n += 1;
            }
            char::from_u32(v).unwrap_or('\u{fffd}')
        }
        _ => return Err(format!("unrecognized escape sequence \\{}", e)),
    })
}

pub fn lex(src: &str) -> Result<Vec<(Tok, u32)>, String> {
    let c: Vec<char> = src.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    let mut line = 1u32;
    if c.first() == Some(&'\u{feff}') {
        i += 1;
    }
    while i < c.len() {
        let ch = c[i];
        if ch == '\n' {
            line += 1;
            i += 1;
        } else if ch.is_whitespace() {
            i += 1;
        } else if ch == '/' && c.get(i + 1) == Some(&'/') || ch == '#' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if ch == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            loop {
                if i + 1 >= c.len() {
                    return Err(format!("line {}: unterminated comment", line));
                }
                if c[i] == '*' && c[i + 1] == '/' {
                    i += 2;
                    break;
                }
                if c[i] == '\n' {
                    line += 1;
                }
                i += 1;
            }
        } else if ch == '_' || ch.is_alphabetic() || (ch == '@' && c.get(i + 1).is_some_and(|d| *d == '_' || d.is_alphabetic())) {
            let verbatim = ch == '@';
            if verbatim {
                i += 1;
            }
            let from = i;
            while i < c.len() && (c[i] == '_' || c[i].is_alphanumeric()) {
                i += 1;
            }
            let text: String = c[from..i].iter().collect();
            out.push((Tok::Ident(sym(&text), verbatim), line));
        } else if ch.is_ascii_digit() {
            let mut value: u128 = 0;
            let radix = if ch == '0' && matches!(c.get(i + 1), Some('x' | 'X')) {
                i += 2;
                16
            } else if ch == '0' && matches!(c.get(i + 1), Some('b' | 'B')) {
                i += 2;
                2
            } else {
                10
            };
            while i < c.len() {
                if let Some(d) = c[i].to_digit(radix) {
                    value = value * radix as u128 + d as u128;
                    if value > u64::MAX as u128 {
                        return Err(format!("line {}: integral constant is too large", line));
                    }
                } else if c[i] != '_' {
                    break;
                }
                i += 1;
            }
            if c.get(i) == Some(&'.') && c.get(i + 1).is_some_and(|d| d.is_ascii_digit()) {
                return Err(format!("line {}: unsupported: real literal", line));
            }
            let mut suffix = String::new();
            while i < c.len() && matches!(c[i], 'u' | 'U' | 'l' | 'L') {
                suffix.push(c[i].to_ascii_uppercase());
                i += 1;
            }
            if c.get(i).is_some_and(|d| d.is_alphanumeric()) {
                return Err(format!("line {}: malformed or unsupported literal", line));
            }
            let suffix = match &*suffix {
                "" => "",
                "U" => "U",
                "L" => "L",
                "UL" | "LU" => "UL",
                _ => return Err(format!("line {}: malformed literal", line)),
            };
            out.push((Tok::Int(value as u64, suffix), line));
        } else if ch == '"' || (ch == '@' && c.get(i + 1) == Some(&'"')) {
            let verbatim = ch == '@';
            i += 1 + verbatim as usize;
            let mut text = String::new();
            loop {
                match c.get(i) {
                    None => return Err(format!("line {}: unterminated string", line)),
                    Some('"') if verbatim && c.get(i + 1) == Some(&'"') => {
                        text.push('"');
                        i += 2;
                    }
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some('\\') if !verbatim => {
                        i += 1;
                        text.push(escape(&c, &mut i)?);
                    }
                    Some('\n') if !verbatim => return Err(format!("line {}: newline in constant", line)),
                    Some(x) => {
                        if *x == '\n' {
                            line += 1;
                        }
                        text.push(*x);
                        i += 1;
                    }
                }
            }
            out.push((Tok::Str((*text).into()), line));
        } else if ch == '$' && c.get(i + 1) == Some(&'"') {
            i += 2;
            let mut parts = Vec::new();
            let mut text = String::new();
            loop {
                match c.get(i) {
                    None | Some('\n') => return Err(format!("line {}: unterminated string", line)),
                    Some('"') => {
                        i += 1;
                        break;
                    }
                    Some('\\') => {
                        i += 1;
                        text.push(escape(&c, &mut i)?);
                    }
                    Some(b @ ('{' | '}')) if c.get(i + 1) == Some(b) => {
                        text.push(*b);
                        i += 2;
                    }
                    Some('{') => {
                        i += 1;
                        let from = i;
                        let mut depth = 0;
                        while i < c.len() && !(depth == 0 && c[i] == '}') {
                            match c[i] {
                                '(' | '{' | '[' => depth += 1,
                                ')' | '}' | ']' => depth -= 1,
                                _ => (),
                            }
                            i += 1;
                        }
                        let expr: String = c[from..i.min(c.len())].iter().collect();
                        i += 1;
                        parts.push(((*std::mem::take(&mut text)).into(), Some((*expr).into())));
                    }
                    Some(x) => {
                        text.push(*x);
                        i += 1;
                    }
                }
            }
            parts.push(((*text).into(), None));
            out.push((Tok::Interp(parts), line));
        } else if ch == '\'' {
            i += 1;
            let value = match c.get(i) {
                Some('\\') => {
                    i += 1;
                    escape(&c, &mut i)?
                }
                Some(x) => {
                    i += 1;
                    *x
                }
                None => return Err(format!("line {}: unterminated character", line)),
            };
            if c.get(i) != Some(&'\'') {
                return Err(format!("line {}: too many characters in character literal", line));
            }
            i += 1;
            out.push((Tok::Char(value), line));
        } else {
            let op = OPS.iter().find(|op| op.chars().enumerate().all(|(n, x)| c.get(i + n) == Some(&x)));
            match op {
                Some(op) => {
                    out.push((Tok::Op(op), line));
                    i += op.len();
                }
                None => return Err(format!("line {}: unexpected character {:?}", line, ch)),
            }
        }
    }
    out.push((Tok::End, line));
    Ok(out)
}

// ---------------------------------------------------------------- syntax

#[derive(Debug)]
pub struct TyRef {
    pub kind: TyKind,
    pub line: u32,
    pub cache: OnceCell<Ty>,
}

#[derive(Debug)]
pub enum TyKind {
    Name(Vec<(Sym, Vec<TyRef>)>),
    Array(Box<TyRef>),
    Nullable(Box<TyRef>),
    Tuple(Vec<(TyRef, Option<Sym>)>),
    /// `var`, or that of an implicitly typed parameter.
    Var,
}

#[derive(Debug)]
pub struct Arg {
    pub name: Option<Sym>,
    pub by_ref: bool,
    pub expr: Expr,
}

#[derive(Debug)]
pub enum Lit {
    Null,
    Bool(bool),
    Int(u64, &'static str),
    Str(Rc<str>),
    Char(char),
}

#[derive(Debug)]
pub struct Expr {
    pub kind: E,
    pub line: u32,
}

#[derive(Debug)]
pub enum E {
    Lit(Lit),
    Name(Sym, Vec<TyRef>, OnceCell<NameRes>),
    Member(Box<Expr>, Sym, Vec<TyRef>),
    /// `a?.b`: what is applied to `a` begins at a `Hole`.
    Cond(Box<Expr>, Box<Expr>),
    Hole,
    Call(Box<Expr>, Vec<Arg>),
    Index(Box<Expr>, Vec<Arg>),
    New(TyRef, Vec<Arg>, Vec<Init>),
    NewArray(Option<TyRef>, Option<Box<Expr>>, Option<Vec<Expr>>),
    This,
    Base,
    Unary(&'static str, Box<Expr>),
    /// Increments or decrements, giving the new value if so.
    Step(Box<Expr>, bool, bool),
    Binary(&'static str, Box<Expr>, Box<Expr>),
    Assign(&'static str, Box<Expr>, Box<Expr>),
    Ternary(Box<Expr>, Box<Expr>, Box<Expr>),
    Cast(TyRef, Box<Expr>),
    As(Box<Expr>, TyRef),
    Is(Box<Expr>, Box<Pattern>),
    Typeof(TyRef),
    Default(Option<TyRef>),
    Nameof(Rc<str>),
    Lambda(Rc<Lambda>),
    Tuple(Vec<(Option<Sym>, Expr)>),
    Throw(Box<Expr>),
    /// A type in the place of an expression, such as `string` in `string.Join`.
    Type(TyRef),
    Interp(Vec<(Rc<str>, Option<Expr>)>),
    /// `out var x`, or a variable of a deconstruction.
    Decl(TyRef, Sym),
    SwitchOn(Box<Expr>, Vec<(Pattern, Option<Expr>, Expr)>),
}

#[derive(Debug)]
pub enum Init {
    Set(Sym, Expr),
    Add(Vec<Expr>),
    At(Expr, Expr),
}

#[derive(Debug)]
pub struct Lambda {
    pub params: Vec<(Option<TyRef>, Sym)>,
    pub body: Body,
}

#[derive(Debug)]
pub enum Body {
    Expr(Expr),
    Block(Vec<Stmt>),
    None,
}

#[derive(Debug)]
pub enum Pattern {
    Const(Expr),
    Type(TyRef, Option<Sym>),
    /// A name which is a constant or a type.
    Either(Expr, TyRef),
    Var(Sym),
    Any,
    Not(Box<Pattern>),
}

#[derive(Debug)]
pub struct Stmt {
    pub kind: S,
    pub line: u32,
}

#[derive(Debug)]
pub enum S {
    Local(TyRef, Vec<(Sym, Option<Expr>)>),
    Func(Rc<Method>),
    Expr(Expr),
    If(Expr, Box<Stmt>, Option<Box<Stmt>>),
    While(Expr, Box<Stmt>),
    Do(Box<Stmt>, Expr),
    For(Vec<Stmt>, Option<Expr>, Vec<Expr>, Box<Stmt>),
    Foreach(TyRef, Vec<Sym>, Expr, Box<Stmt>),
    Switch(Expr, Vec<Section>),
    Return(Option<Expr>),
    Break,
    Continue,
    Throw(Option<Expr>),
    Block(Vec<Stmt>),
    Try(Vec<Stmt>, Vec<Catch>, Option<Vec<Stmt>>),
    Using(Box<Stmt>, Box<Stmt>),
    Yield(Option<Expr>),
    Empty,
}

#[derive(Debug)]
pub struct Section {
    /// `None` is the default.
    pub labels: Vec<(Option<Pattern>, Option<Expr>)>,
    pub body: Vec<Stmt>,
}

#[derive(Debug)]
pub struct Catch {
    pub ty: Option<TyRef>,
    pub name: Option<Sym>,
    pub when: Option<Expr>,
    pub body: Vec<Stmt>,
}

#[derive(Debug)]
pub struct Param {
    pub name: Sym,
    pub ty: TyRef,
    pub default: Option<Expr>,
    pub by_ref: bool,
    pub out: bool,
    pub this: bool,
    pub params: bool,
}

#[derive(Debug)]
pub struct Method {
    pub name: Sym,
    pub tparams: Vec<Sym>,
    pub params: Vec<Param>,
    /// `None` for constructors.
    pub ret: Option<TyRef>,
    pub body: Body,
    pub is_static: bool,
    pub is_public: bool,
    pub is_override: bool,
    /// Constructors: whether another one of `this` class (or of the base) is called, and with what.
    pub chain: Option<(bool, Vec<Arg>)>,
    pub is_ctor: bool,
    /// Explicit implementation of an interface.
    pub explicit: bool,
    pub line: u32,
    pub broken: Cell<bool>,
}

#[derive(Debug)]
pub struct Prop {
    pub name: Sym,
    pub ty: TyRef,
    pub is_static: bool,
    pub is_public: bool,
    pub get: Option<Rc<Method>>,
    pub set: Option<Rc<Method>>,
    /// Whether storage is implied.
    pub auto: bool,
    pub init: Option<Expr>,
    pub line: u32,
}

#[derive(Debug)]
pub struct Field {
    pub name: Sym,
    pub ty: TyRef,
    pub is_static: bool,
    pub is_const: bool,
    pub is_event: bool,
    pub init: Option<Expr>,
    pub line: u32,
}

#[derive(Debug)]
pub enum Member {
    Field(Rc<Field>),
    Prop(Rc<Prop>),
    /// Getter and setter taking indices.
    Indexer(Rc<Prop>),
    Method(Rc<Method>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Class,
    Interface,
    Enum,
}

#[derive(Debug)]
pub struct TypeDecl {
    pub kind: Kind,
    pub is_static: bool,
    pub is_public: bool,
    pub is_partial: bool,
    pub name: Sym,
    pub tparams: Vec<Sym>,
    pub bases: Vec<TyRef>,
    pub wheres: Vec<TyRef>,
    pub members: Vec<Member>,
    pub nested: Vec<TypeDecl>,
    pub line: u32,
}

#[derive(Debug)]
pub struct Unit {
    pub file: Rc<str>,
    pub usings: Vec<Rc<str>>,
    /// `using static`s and aliases.
    pub aliases: Vec<(Sym, TyRef)>,
    pub types: Vec<(Rc<str>, TypeDecl)>,
}

// ---------------------------------------------------------------- parser

pub struct Parser {
    toks: Vec<(Tok, u32)>,
    at: usize,
    kw: Rc<Keywords>,
    fresh: u32,
}

type P<T> = Result<T, String>;

struct Keywords {
    reserved: super::fast::HashSet<Sym>,
    prims: HashMap<Sym, Sym>,
}

const RESERVED: &[&str] = &[
    "abstract", "as", "base", "bool", "break", "byte", "case", "catch", "char", "checked", "class", "const",
    "continue", "decimal", "default", "delegate", "do", "double", "else", "enum", "event", "explicit", "extern",
    "false", "finally", "fixed", "float", "for", "foreach", "goto", "if", "implicit", "in", "int", "interface",
    "internal", "is", "lock", "long", "namespace", "new", "null", "object", "operator", "out", "override", "params",
    "private", "protected", "public", "readonly", "ref", "return", "sbyte", "sealed", "short", "sizeof",
    "stackalloc", "static", "string", "struct", "switch", "this", "throw", "true", "try", "typeof", "uint", "ulong",
    "unchecked", "unsafe", "ushort", "using", "virtual", "void", "volatile", "while",
];

const PRIMS: &[(&str, &str)] = &[
    ("bool", "Boolean"), ("byte", "Byte"), ("sbyte", "SByte"), ("short", "Int16"), ("ushort", "UInt16"),
    ("int", "Int32"), ("uint", "UInt32"), ("long", "Int64"), ("ulong", "UInt64"), ("char", "Char"),
    ("string", "String"), ("object", "Object"), ("void", "Void"), ("float", "Single"), ("double", "Double"),
];

impl Parser {
    fn new(src: &str) -> P<Parser> {
        let kw = Keywords {
            reserved: RESERVED.iter().map(|k| sym(k)).collect(),
            prims: PRIMS.iter().map(|(k, v)| (sym(k), sym(&format!("System.{}", v)))).collect(),
        };
        Ok(Parser { toks: lex(src)?, at: 0, kw: Rc::new(kw), fresh: 0 })
    }

    fn peek(&self) -> &Tok {
        &self.toks[self.at.min(self.toks.len() - 1)].0
    }

    fn peek_at(&self, n: usize) -> &Tok {
        &self.toks[(self.at + n).min(self.toks.len() - 1)].0
    }

    fn line(&self) -> u32 {
        self.toks[self.at.min(self.toks.len() - 1)].1
    }

    fn next(&mut self) -> Tok {
        let tok = self.peek().clone();
        self.at += 1;
        tok
    }

    fn is(&self, op: &str) -> bool {
        matches!(self.peek(), Tok::Op(o) if *o == op)
    }

    fn is_kw(&self, kw: &str) -> bool {
        matches!(self.peek(), Tok::Ident(s, false) if &*name(*s) == kw)
    }

    fn is_kw_at(&self, n: usize, kw: &str) -> bool {
        matches!(self.peek_at(n), Tok::Ident(s, false) if &*name(*s) == kw)
    }

    fn eat(&mut self, op: &str) -> bool {
        let is = self.is(op);
        self.at += is as usize;
        is
    }

    fn eat_kw(&mut self, kw: &str) -> bool {
        let is = self.is_kw(kw);
        self.at += is as usize;
        is
    }

    fn fail<T>(&self, what: &str) -> P<T> {
        let found = match self.peek() {
            Tok::Ident(s, _) => format!("`{}`", name(*s)),
            Tok::Op(o) => format!("`{}`", o),
            t => format!("{:?}", t),
        };
        Err(format!("line {}: {} expected, {} found", self.line(), what, found))
    }

    fn expect(&mut self, op: &str) -> P<()> {
        if self.eat(op) {
            return Ok(());
        }
        self.fail(&format!("`{}`", op))
    }

    fn expect_kw(&mut self, kw: &str) -> P<()> {
        if self.eat_kw(kw) {
            return Ok(());
        }
        self.fail(&format!("`{}`", kw))
    }

    fn is_ident(&self) -> bool {
        match self.peek() {
            Tok::Ident(_, true) => true,
            Tok::Ident(s, _) => !self.kw.reserved.contains(s),
            _ => false,
        }
    }

    fn is_ident_at(&self, n: usize) -> bool {
        match self.peek_at(n) {
            Tok::Ident(_, true) => true,
            Tok::Ident(s, _) => !self.kw.reserved.contains(s),
            _ => false,
        }
    }

    fn ident(&mut self) -> P<Sym> {
        if self.is_ident() {
            if let Tok::Ident(s, _) = self.next() {
                return Ok(s);
            }
        }
        self.fail("an identifier")
    }

    /// Closes type arguments: `>>` is lexed as two tokens.
    fn close_angle(&mut self) -> P<()> {
        self.expect(">")
    }

    // ------------------------------------------------------------ types

    fn ty_ref(&self, kind: TyKind, line: u32) -> TyRef {
        TyRef { kind, line, cache: OnceCell::new() }
    }

    fn ty(&mut self) -> P<TyRef> {
        self.ty_with(true)
    }

    fn ty_with(&mut self, nullable: bool) -> P<TyRef> {
        let line = self.line();
        let mut ty = if self.eat("(") {
            let mut items = Vec::new();
            loop {
                let ty = self.ty()?;
                let name = if self.is_ident() { Some(self.ident()?) } else { None };
                items.push((ty, name));
                if !self.eat(",") {
                    break;
                }
            }
            self.expect(")")?;
            if items.len() < 2 {
                return self.fail("a tuple type");
            }
            self.ty_ref(TyKind::Tuple(items), line)
        } else if let Tok::Ident(s, false) = self.peek() {
            if let Some(prim) = self.kw.prims.get(s).copied() {
                self.next();
                self.ty_ref(TyKind::Name(vec![(prim, vec![])]), line)
            } else if *s == s::var && !matches!(self.peek_at(1), Tok::Op("." | "<")) {
                self.next();
                self.ty_ref(TyKind::Var, line)
            } else {
                self.named_ty()?
            }
        } else {
            self.named_ty()?
        };
        loop {
            if self.is("[") && matches!(self.peek_at(1), Tok::Op("]")) {
                self.at += 2;
                ty = self.ty_ref(TyKind::Array(Box::new(ty)), line);
            } else if nullable && self.is("?") {
                self.next();
                ty = self.ty_ref(TyKind::Nullable(Box::new(ty)), line);
            } else {
                return Ok(ty);
            }
        }
    }

    fn named_ty(&mut self) -> P<TyRef> {
        let line = self.line();
        let mut segments = Vec::new();
        loop {
            let mut name = self.ident()?;
            if segments.is_empty() && self.eat("::") {
                name = self.ident()?;
            }
            let args = if self.is("<") { self.ty_args()? } else { vec![] };
            segments.push((name, args));
            if self.is(".") && self.is_ident_at(1) {
                self.next();
            } else {
                break;
            }
        }
        Ok(self.ty_ref(TyKind::Name(segments), line))
    }

    fn ty_args(&mut self) -> P<Vec<TyRef>> {
        self.expect("<")?;
        let mut args = Vec::new();
        loop {
            if self.is(",") || self.is(">") {
                // An open generic type.
                args.push(self.ty_ref(TyKind::Var, self.line()));
            } else {
                args.push(self.ty()?);
            }
            if !self.eat(",") {
                break;
            }
        }
        self.close_angle()?;
        Ok(args)
    }

    /// Tries to read something, going back if it doesn't succeed.
    fn attempt<T>(&mut self, f: impl FnOnce(&mut Self) -> P<T>) -> Option<T> {
        let at = self.at;
        match f(self) {
            Ok(x) => Some(x),
            Err(_) => {
                self.at = at;
                None
            }
        }
    }

    // ------------------------------------------------------------ expressions

    fn e(&self, line: u32, kind: E) -> Expr {
        Expr { kind, line }
    }

    pub fn expr(&mut self) -> P<Expr> {
        let line = self.line();
        if self.eat_kw("throw") {
            let e = self.expr()?;
            return Ok(self.e(line, E::Throw(Box::new(e))));
        }
        if let Some(lambda) = self.lambda()? {
            return Ok(lambda);
        }
        let left = self.ternary()?;
        for op in ["=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", "??="] {
            if self.eat(op) {
                let right = self.expr()?;
                return Ok(self.e(line, E::Assign(op, Box::new(left), Box::new(right))));
            }
        }
        if self.is(">>=") {
            self.next();
            let right = self.expr()?;
            return Ok(self.e(line, E::Assign(">>=", Box::new(left), Box::new(right))));
        }
        Ok(left)
    }

    fn lambda(&mut self) -> P<Option<Expr>> {
        let line = self.line();
        let mut params = Vec::new();
        if self.is_ident() && matches!(self.peek_at(1), Tok::Op("=>")) {
            params.push((None, self.ident()?));
            self.next();
        } else if self.is("(") {
            // Parameters are known by the arrow behind the closing parenthesis.
            let mut depth = 0;
            let mut n = 0;
            loop {
                match self.peek_at(n) {
                    Tok::Op("(") => depth += 1,
                    Tok::Op(")") => {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    Tok::End => return Ok(None),
                    _ => (),
                }
                n += 1;
            }
            if !matches!(self.peek_at(n + 1), Tok::Op("=>")) {
                return Ok(None);
            }
            self.next();
            while !self.eat(")") {
                if self.is_ident() && matches!(self.peek_at(1), Tok::Op("," | ")")) {
                    params.push((None, self.ident()?));
                } else {
                    let ty = self.ty()?;
                    params.push((Some(ty), self.ident()?));
                }
                self.eat(",");
            }
            self.expect("=>")?;
        } else if self.is_kw("delegate") && matches!(self.peek_at(1), Tok::Op("(" | "{")) {
            self.next();
            if self.eat("(") {
                while !self.eat(")") {
                    let ty = self.ty()?;
                    params.push((Some(ty), self.ident()?));
                    self.eat(",");
                }
            }
            let body = Body::Block(self.block()?);
            return Ok(Some(self.e(line, E::Lambda(Rc::new(Lambda { params, body })))));
        } else {
            return Ok(None);
        }
        let body = if self.is("{") { Body::Block(self.block()?) } else { Body::Expr(self.expr()?) };
        Ok(Some(self.e(line, E::Lambda(Rc::new(Lambda { params, body })))))
    }

    fn ternary(&mut self) -> P<Expr> {
        let line = self.line();
        let cond = self.coalesce()?;
        if self.is("?") {
            self.next();
            let a = self.expr()?;
            self.expect(":")?;
            let b = self.expr()?;
            return Ok(self.e(line, E::Ternary(Box::new(cond), Box::new(a), Box::new(b))));
        }
        Ok(cond)
    }

    fn coalesce(&mut self) -> P<Expr> {
        let line = self.line();
        let left = self.binary(0)?;
        if self.eat("??") {
            let right = if self.is_kw("throw") { self.expr()? } else { self.coalesce()? };
            return Ok(self.e(line, E::Binary("??", Box::new(left), Box::new(right))));
        }
        Ok(left)
    }

    fn op_at(&self, level: usize) -> Option<(&'static str, usize)> {
        const LEVELS: &[&[&str]] = &[
            &["||"], &["&&"], &["|"], &["^"], &["&"], &["==", "!="], &["<", ">", "<=", ">="], &["<<", ">>"],
            &["+", "-"], &["*", "/", "%"],
        ];
        let Tok::Op(op) = self.peek() else { return None };
        // `>>` comes as two adjacent tokens.
        if *op == ">" && matches!(self.peek_at(1), Tok::Op(">")) {
            return (level == 7).then_some((">>", 2));
        }
        LEVELS[level].iter().find(|o| *o == op).map(|o| (*o, 1))
    }

    fn binary(&mut self, level: usize) -> P<Expr> {
        if level == 10 {
            return self.unary();
        }
        let line = self.line();
        let mut left = self.binary(level + 1)?;
        loop {
            if level == 6 && self.eat_kw("is") {
                let pattern = self.pattern()?;
                left = self.e(line, E::Is(Box::new(left), Box::new(pattern)));
                continue;
            }
            if level == 6 && self.eat_kw("as") {
                let nullable = self.nullable_follows();
                let ty = self.ty_with(nullable)?;
                left = self.e(line, E::As(Box::new(left), ty));
                continue;
            }
            if level == 6 && self.is_kw("switch") && matches!(self.peek_at(1), Tok::Op("{")) {
                self.at += 2;
                let mut arms = Vec::new();
                while !self.eat("}") {
                    let pattern = self.pattern()?;
                    let when = if self.eat_kw("when") { Some(self.expr()?) } else { None };
                    self.expect("=>")?;
                    arms.push((pattern, when, self.expr()?));
                    self.eat(",");
                }
                left = self.e(line, E::SwitchOn(Box::new(left), arms));
                continue;
            }
            let Some((op, n)) = self.op_at(level) else { return Ok(left) };
            self.at += n;
            let right = self.binary(level + 1)?;
            left = self.e(line, E::Binary(op, Box::new(left), Box::new(right)));
        }
    }

    /// Whether a `?` behind a type belongs to it: it doesn't if a conditional can be read.
    fn nullable_follows(&mut self) -> bool {
        let at = self.at;
        let plain = self.ty_with(false).is_ok() && self.is("?");
        let follows = plain && {
            self.next();
            matches!(self.peek(), Tok::Op(")" | ";" | "," | "?" | "??" | "." | "&&" | "||" | "==" | "!=" | "]" | "}"))
        };
        self.at = at;
        follows
    }

    fn pattern(&mut self) -> P<Pattern> {
        let pattern = self.one_pattern()?;
        if (self.is_kw("or") || self.is_kw("and") || self.is("{")) && !matches!(self.peek_at(1), Tok::Op(")" | ";")) {
            return Err(format!("line {}: unsupported: compound patterns", self.line()));
        }
        Ok(pattern)
    }

    fn one_pattern(&mut self) -> P<Pattern> {
        if self.is_kw("not") && !matches!(self.peek_at(1), Tok::Op(_)) {
            self.next();
            return Ok(Pattern::Not(Box::new(self.pattern()?)));
        }
        if self.is_kw("var") && self.is_ident_at(1) {
            self.next();
            return Ok(Pattern::Var(self.ident()?));
        }
        if self.is_kw("_") && matches!(self.peek_at(1), Tok::Op("=>" | ":" | ")")) {
            self.next();
            return Ok(Pattern::Any);
        }
        let at = self.at;
        let nullable = self.nullable_follows();
        if let Some(ty) = self.attempt(|p| p.ty_with(nullable)) {
            if self.is_ident() && !self.is_kw("when") {
                return Ok(Pattern::Type(ty, Some(self.ident()?)));
            }
            if matches!(self.peek(), Tok::Op(")" | ";" | "," | "&&" | "||" | "?" | ":" | "=>" | "}" | "]" | "==" | "!=" | "??"))
                || self.is_kw("when")
            {
                // Names may stand for constants as well.
                let end = self.at;
                let plain = matches!(&ty.kind, TyKind::Name(s) if s.iter().all(|(n, a)| a.is_empty() && !name(*n).starts_with("System.")));
                if plain {
                    self.at = at;
                    let e = self.binary(7)?;
                    if self.at == end {
                        return Ok(Pattern::Either(e, ty));
                    }
                    self.at = end;
                }
                return Ok(Pattern::Type(ty, None));
            }
            self.at = at;
        }
        Ok(Pattern::Const(self.binary(7)?))
    }

    fn unary(&mut self) -> P<Expr> {
        let line = self.line();
        for op in ["!", "~", "-", "+"] {
            if self.eat(op) {
                let e = self.unary()?;
                return Ok(self.e(line, E::Unary(op, Box::new(e))));
            }
        }
        for (op, up) in [("++", true), ("--", false)] {
            if self.eat(op) {
                let e = self.unary()?;
                return Ok(self.e(line, E::Step(Box::new(e), up, true)));
            }
        }
        if self.is("(") {
            let at = self.at;
            let cast = self.attempt(|p| {
                p.expect("(")?;
                let ty = p.ty()?;
                p.expect(")")?;
                Ok(ty)
            });
            if let Some(ty) = cast {
                let prim = match &ty.kind {
                    TyKind::Name(s) => s.len() == 1 && name(s[0].0).starts_with("System."),
                    TyKind::Array(_) | TyKind::Nullable(_) => true,
                    _ => false,
                };
                let follows = match self.peek() {
                    Tok::Op(op) => matches!(*op, "(" | "!" | "~") || (prim && matches!(*op, "-" | "+")),
                    Tok::Ident(_, true) => true,
                    Tok::Ident(s, _) => !matches!(&*name(*s), "as" | "is" | "when" | "switch"),
                    Tok::End => false,
                    _ => true,
                };
                if follows && !matches!(ty.kind, TyKind::Tuple(_)) {
                    let e = self.unary()?;
                    return Ok(self.e(line, E::Cast(ty, Box::new(e))));
                }
            }
            self.at = at;
        }
        self.postfix()
    }

    fn args(&mut self, close: &str) -> P<Vec<Arg>> {
        let mut args = Vec::new();
        while !self.eat(close) {
            let mut arg_name = None;
            if self.is_ident() && matches!(self.peek_at(1), Tok::Op(":")) {
                arg_name = Some(self.ident()?);
                self.next();
            }
            let by_ref = self.eat_kw("ref") || self.eat_kw("out") || self.eat_kw("in");
            let line = self.line();
            let expr = if by_ref {
                let decl = self.attempt(|p| {
                    let ty = p.ty()?;
                    let var = p.ident()?;
                    Ok((ty, var))
                });
                match decl {
                    Some((ty, var)) => self.e(line, E::Decl(ty, var)),
                    None => self.expr()?,
                }
            } else {
                self.expr()?
            };
            args.push(Arg { name: arg_name, by_ref, expr });
            if !self.is(close) {
                self.expect(",")?;
            }
        }
        Ok(args)
    }

    /// Type arguments of a name in an expression, told from comparisons by what follows.
    fn expr_ty_args(&mut self) -> Vec<TyRef> {
        if !self.is("<") {
            return vec![];
        }
        self.attempt(|p| {
            let args = p.ty_args()?;
            match p.peek() {
                Tok::Op(
                    "(" | ")" | "]" | "}" | ":" | ";" | "," | "." | "?" | "?." | "==" | "!=" | "|" | "^" | "&&" | "||" | "&" | "[",
                )
                | Tok::End => Ok(args),
                _ => Err(String::new()),
            }
        })
        .unwrap_or_default()
    }

    fn postfix(&mut self) -> P<Expr> {
        let e = self.primary()?;
        self.chain(e)
    }

    fn chain(&mut self, mut e: Expr) -> P<Expr> {
        loop {
            let line = self.line();
            if self.eat(".") {
                let name = self.ident()?;
                let args = self.expr_ty_args();
                e = self.e(line, E::Member(Box::new(e), name, args));
            } else if self.eat("?.") {
                let name = self.ident()?;
                let args = self.expr_ty_args();
                let hole = self.e(line, E::Hole);
                let first = self.e(line, E::Member(Box::new(hole), name, args));
                let rest = self.chain(first)?;
                e = self.e(line, E::Cond(Box::new(e), Box::new(rest)));
            } else if self.is("?") && matches!(self.peek_at(1), Tok::Op("[")) {
                let indexed = self.attempt(|p| {
                    p.at += 2;
                    let args = p.args("]")?;
                    if p.is(":") {
                        return Err(String::new());
                    }
                    Ok(args)
                });
                let Some(args) = indexed else { return Ok(e) };
                let hole = self.e(line, E::Hole);
                let first = self.e(line, E::Index(Box::new(hole), args));
                let rest = self.chain(first)?;
                e = self.e(line, E::Cond(Box::new(e), Box::new(rest)));
            } else if self.eat("(") {
                let args = self.args(")")?;
                if let (E::Name(s::nameof, _, _), [arg]) = (&e.kind, &args[..]) {
                    let text = match &arg.expr.kind {
                        E::Name(n, _, _) | E::Member(_, n, _) => name(*n),
                        E::Type(_) | E::This => "".into(),
                        _ => return self.fail("a name in `nameof`"),
                    };
                    e = self.e(line, E::Nameof(text));
                    continue;
                }
                e = self.e(line, E::Call(Box::new(e), args));
            } else if self.eat("[") {
                let args = self.args("]")?;
                e = self.e(line, E::Index(Box::new(e), args));
            } else if self.eat("++") {
                e = self.e(line, E::Step(Box::new(e), true, false));
            } else if self.eat("--") {
                e = self.e(line, E::Step(Box::new(e), false, false));
            } else if self.is("!") && !matches!(self.peek_at(1), Tok::Op("=")) {
                // A null-forgiving operator has no effect.
                self.next();
            } else {
                return Ok(e);
            }
        }
    }

    fn primary(&mut self) -> P<Expr> {
        let line = self.line();
        if self.is_kw("global") && matches!(self.peek_at(1), Tok::Op("::")) {
            self.next();
            self.next();
        }
        let kind = match self.peek().clone() {
            Tok::Int(v, suffix) => {
                self.next();
                E::Lit(Lit::Int(v, suffix))
            }
            Tok::Str(s) => {
                self.next();
                E::Lit(Lit::Str(s))
            }
            Tok::Char(c) => {
                self.next();
                E::Lit(Lit::Char(c))
            }
            Tok::Interp(parts) => {
                self.next();
                let mut out = Vec::new();
                for (text, expr) in parts {
                    let expr = match expr {
                        None => None,
                        Some(src) => {
                            let mut inner = Parser::new(&src)?;
                            let e = inner.expr()?;
                            Some(e)
                        }
                    };
                    out.push((text, expr));
                }
                E::Interp(out)
            }
            Tok::Op("(") => {
                self.next();
                let mut items = Vec::new();
                loop {
                    let mut item_name = None;
                    if self.is_ident() && matches!(self.peek_at(1), Tok::Op(":")) {
                        item_name = Some(self.ident()?);
                        self.next();
                    }
                    let decl_line = self.line();
                    let decl = self.attempt(|p| {
                        let ty = p.ty()?;
                        let var = p.ident()?;
                        if !p.is(",") && !p.is(")") {
                            return Err(String::new());
                        }
                        Ok((ty, var))
                    });
                    let e = match decl {
                        Some((ty, var)) => self.e(decl_line, E::Decl(ty, var)),
                        None => self.expr()?,
                    };
                    items.push((item_name, e));
                    if !self.eat(",") {
                        break;
                    }
                }
                self.expect(")")?;
                if items.len() == 1 && items[0].0.is_none() {
                    let e = items.pop().unwrap().1;
                    // Parentheses matter to none of what follows, save for ending a conditional access.
                    return Ok(e);
                }
                E::Tuple(items)
            }
            Tok::Ident(word, verbatim) => {
                let text = name(word);
                if verbatim {
                    self.next();
                    let args = self.expr_ty_args();
                    E::Name(word, args, OnceCell::new())
                } else if self.kw.prims.contains_key(&word) {
                    let ty = self.ty_with(false)?;
                    E::Type(ty)
                } else {
                    match &*text {
                        "true" | "false" => {
                            self.next();
                            E::Lit(Lit::Bool(&*text == "true"))
                        }
                        "null" => {
                            self.next();
                            E::Lit(Lit::Null)
                        }
                        "this" => {
                            self.next();
                            E::This
                        }
                        "base" => {
                            self.next();
                            E::Base
                        }
                        "typeof" => {
                            self.next();
                            self.expect("(")?;
                            let ty = self.ty()?;
                            self.expect(")")?;
                            E::Typeof(ty)
                        }
                        "default" => {
                            self.next();
                            if self.eat("(") {
                                let ty = self.ty()?;
                                self.expect(")")?;
                                E::Default(Some(ty))
                            } else {
                                E::Default(None)
                            }
                        }
                        "checked" => return Err(format!("line {}: unsupported: `checked`", line)),
                        "unchecked" => {
                            self.next();
                            self.expect("(")?;
                            let e = self.expr()?;
                            self.expect(")")?;
                            return Ok(e);
                        }
                        "new" => return self.creation(),
                        "stackalloc" | "sizeof" | "await" => return Err(format!("line {}: unsupported: `{}`", line, text)),
                        _ => {
                            let word = self.ident()?;
                            let args = self.expr_ty_args();
                            E::Name(word, args, OnceCell::new())
                        }
                    }
                }
            }
            _ => return self.fail("an expression"),
        };
        Ok(self.e(line, kind))
    }

    fn creation(&mut self) -> P<Expr> {
        let line = self.line();
        self.expect_kw("new")?;
        if self.is("[") {
            self.next();
            self.expect("]")?;
            let items = self.array_init()?;
            return Ok(self.e(line, E::NewArray(None, None, Some(items))));
        }
        if self.is("{") {
            return Err(format!("line {}: unsupported: anonymous type", line));
        }
        if self.is("(") {
            return Err(format!("line {}: unsupported: target-typed `new`", line));
        }
        let ty = self.element_ty()?;
        if self.is("[") && !matches!(self.peek_at(1), Tok::Op("]")) {
            self.next();
            let size = self.expr()?;
            self.expect("]")?;
            // Arrays of arrays.
            let mut item = ty;
            while self.is("[") && matches!(self.peek_at(1), Tok::Op("]")) {
                self.at += 2;
                item = self.ty_ref(TyKind::Array(Box::new(item)), line);
            }
            let items = if self.is("{") { Some(self.array_init()?) } else { None };
            return Ok(self.e(line, E::NewArray(Some(item), Some(Box::new(size)), items)));
        }
        if self.is("[") {
            let mut depth = 0;
            while self.is("[") {
                self.at += 2;
                depth += 1;
            }
            let mut item = ty;
            for _ in 1..depth {
                item = self.ty_ref(TyKind::Array(Box::new(item)), line);
            }
            let items = self.array_init()?;
            return Ok(self.e(line, E::NewArray(Some(item), None, Some(items))));
        }
        let args = if self.eat("(") { self.args(")")? } else { vec![] };
        let mut inits = Vec::new();
        if self.eat("{") {
            while !self.eat("}") {
                if self.eat("[") {
                    let key = self.expr()?;
                    self.expect("]")?;
                    self.expect("=")?;
                    inits.push(Init::At(key, self.expr()?));
                } else if self.is_ident() && matches!(self.peek_at(1), Tok::Op("=")) {
                    let field = self.ident()?;
                    self.next();
                    inits.push(Init::Set(field, self.expr()?));
                } else if self.eat("{") {
                    let mut items = Vec::new();
                    while !self.eat("}") {
                        items.push(self.expr()?);
                        self.eat(",");
                    }
                    inits.push(Init::Add(items));
                } else {
                    inits.push(Init::Add(vec![self.expr()?]));
                }
                if !self.is("}") {
                    self.expect(",")?;
                }
            }
        }
        Ok(self.e(line, E::New(ty, args, inits)))
    }

    /// A type without array ranks.
    fn element_ty(&mut self) -> P<TyRef> {
        let line = self.line();
        let ty = if let Tok::Ident(s, false) = self.peek() {
            match self.kw.prims.get(s).copied() {
                Some(prim) => {
                    self.next();
                    self.ty_ref(TyKind::Name(vec![(prim, vec![])]), line)
                }
                None => self.named_ty()?,
            }
        } else {
            self.named_ty()?
        };
        if self.eat("?") {
            return Ok(self.ty_ref(TyKind::Nullable(Box::new(ty)), line));
        }
        Ok(ty)
    }

    fn array_init(&mut self) -> P<Vec<Expr>> {
        self.expect("{")?;
        let mut items = Vec::new();
        while !self.eat("}") {
            items.push(self.expr()?);
            if !self.is("}") {
                self.expect(",")?;
            }
        }
        Ok(items)
    }

    // ------------------------------------------------------------ statements

    fn block(&mut self) -> P<Vec<Stmt>> {
        self.expect("{")?;
        let mut out = Vec::new();
        while !self.eat("}") {
            out.push(self.stmt()?);
        }
        Ok(out)
    }

    fn st(&self, line: u32, kind: S) -> Stmt {
        Stmt { kind, line }
    }

    fn stmt(&mut self) -> P<Stmt> {
        let line = self.line();
        if self.is("{") {
            let block = self.block()?;
            return Ok(self.st(line, S::Block(block)));
        }
        if self.eat(";") {
            return Ok(self.st(line, S::Empty));
        }
        if let Tok::Ident(word, false) = self.peek() {
            let text = name(*word);
            match &*text {
                "if" => {
                    self.next();
                    self.expect("(")?;
                    let cond = self.expr()?;
                    self.expect(")")?;
                    let then = self.stmt()?;
                    let or = if self.eat_kw("else") { Some(Box::new(self.stmt()?)) } else { None };
                    return Ok(self.st(line, S::If(cond, Box::new(then), or)));
                }
                "while" => {
                    self.next();
                    self.expect("(")?;
                    let cond = self.expr()?;
                    self.expect(")")?;
                    let body = self.stmt()?;
                    return Ok(self.st(line, S::While(cond, Box::new(body))));
                }
                "do" => {
                    self.next();
                    let body = self.stmt()?;
                    self.expect_kw("while")?;
                    self.expect("(")?;
                    let cond = self.expr()?;
                    self.expect(")")?;
                    self.expect(";")?;
                    return Ok(self.st(line, S::Do(Box::new(body), cond)));
                }
                "for" => {
                    self.next();
                    self.expect("(")?;
                    let mut init = Vec::new();
                    if !self.eat(";") {
                        match self.local()? {
                            Some(local) => {
                                self.expect(";")?;
                                init.push(local);
                            }
                            None => loop {
                                let e = self.expr()?;
                                init.push(self.st(line, S::Expr(e)));
                                if self.eat(";") {
                                    break;
                                }
                                self.expect(",")?;
                            },
                        }
                    }
                    let cond = if self.is(";") { None } else { Some(self.expr()?) };
                    self.expect(";")?;
                    let mut step = Vec::new();
                    while !self.eat(")") {
                        step.push(self.expr()?);
                        self.eat(",");
                    }
                    let body = self.stmt()?;
                    return Ok(self.st(line, S::For(init, cond, step, Box::new(body))));
                }
                "foreach" => {
                    self.next();
                    self.expect("(")?;
                    let (ty, vars) = if self.is_kw("var") && matches!(self.peek_at(1), Tok::Op("(")) {
                        self.at += 2;
                        let mut vars = Vec::new();
                        while !self.eat(")") {
                            vars.push(self.ident()?);
                            self.eat(",");
                        }
                        (self.ty_ref(TyKind::Var, line), vars)
                    } else {
                        let ty = self.ty()?;
                        (ty, vec![self.ident()?])
                    };
                    self.expect_kw("in")?;
                    let e = self.expr()?;
                    self.expect(")")?;
                    let body = self.stmt()?;
                    return Ok(self.st(line, S::Foreach(ty, vars, e, Box::new(body))));
                }
                "switch" if matches!(self.peek_at(1), Tok::Op("(")) => {
                    self.next();
                    self.expect("(")?;
                    let on = self.expr()?;
                    self.expect(")")?;
                    self.expect("{")?;
                    let mut sections: Vec<Section> = Vec::new();
                    while !self.eat("}") {
                        let mut labels = Vec::new();
                        loop {
                            if self.is_kw("default") && matches!(self.peek_at(1), Tok::Op(":")) {
                                self.at += 2;
                                labels.push((None, None));
                            } else if self.eat_kw("case") {
                                let pattern = self.case_pattern()?;
                                let when = if self.eat_kw("when") { Some(self.expr()?) } else { None };
                                self.expect(":")?;
                                labels.push((Some(pattern), when));
                            } else {
                                break;
                            }
                        }
                        if labels.is_empty() {
                            return self.fail("`case` or `default`");
                        }
                        let mut body = Vec::new();
                        while !self.is("}") && !self.is_kw("case") && !(self.is_kw("default") && matches!(self.peek_at(1), Tok::Op(":"))) {
                            body.push(self.stmt()?);
                        }
                        sections.push(Section { labels, body });
                    }
                    return Ok(self.st(line, S::Switch(on, sections)));
                }
                "return" => {
                    self.next();
                    let e = if self.is(";") { None } else { Some(self.expr()?) };
                    self.expect(";")?;
                    return Ok(self.st(line, S::Return(e)));
                }
                "break" => {
                    self.next();
                    self.expect(";")?;
                    return Ok(self.st(line, S::Break));
                }
                "continue" => {
                    self.next();
                    self.expect(";")?;
                    return Ok(self.st(line, S::Continue));
                }
                "throw" => {
                    self.next();
                    let e = if self.is(";") { None } else { Some(self.expr()?) };
                    self.expect(";")?;
                    return Ok(self.st(line, S::Throw(e)));
                }
                "try" => {
                    self.next();
                    let body = self.block()?;
                    let mut catches = Vec::new();
                    while self.eat_kw("catch") {
                        let (mut ty, mut var) = (None, None);
                        if self.eat("(") {
                            ty = Some(self.ty()?);
                            if !self.is(")") {
                                var = Some(self.ident()?);
                            }
                            self.expect(")")?;
                        }
                        let when = if self.eat_kw("when") {
                            self.expect("(")?;
                            let e = self.expr()?;
                            self.expect(")")?;
                            Some(e)
                        } else {
                            None
                        };
                        let body = self.block()?;
                        catches.push(Catch { ty, name: var, when, body });
                    }
                    let last = if self.eat_kw("finally") { Some(self.block()?) } else { None };
                    return Ok(self.st(line, S::Try(body, catches, last)));
                }
                "using" => {
                    self.next();
                    self.expect("(")?;
                    let first = match self.local()? {
                        Some(local) => local,
                        None => {
                            let e = self.expr()?;
                            self.st(line, S::Expr(e))
                        }
                    };
                    self.expect(")")?;
                    let body = self.stmt()?;
                    return Ok(self.st(line, S::Using(Box::new(first), Box::new(body))));
                }
                "lock" => {
                    self.next();
                    self.expect("(")?;
                    let e = self.expr()?;
                    self.expect(")")?;
                    let body = self.stmt()?;
                    let first = self.st(line, S::Expr(e));
                    return Ok(self.st(line, S::Block(vec![first, body])));
                }
                "unchecked" if matches!(self.peek_at(1), Tok::Op("{")) => {
                    self.next();
                    let block = self.block()?;
                    return Ok(self.st(line, S::Block(block)));
                }
                "const" => {
                    self.next();
                    let Some(local) = self.local()? else { return self.fail("a constant") };
                    self.expect(";")?;
                    return Ok(local);
                }
                "yield" if self.is_kw_at(1, "return") => {
                    self.at += 2;
                    let e = self.expr()?;
                    self.expect(";")?;
                    return Ok(self.st(line, S::Yield(Some(e))));
                }
                "yield" if self.is_kw_at(1, "break") => {
                    self.at += 2;
                    self.expect(";")?;
                    return Ok(self.st(line, S::Yield(None)));
                }
                "goto" | "fixed" | "unsafe" => return Err(format!("line {}: unsupported: `{}`", line, text)),
                _ => (),
            }
        }
        if let Some(func) = self.local_func()? {
            return Ok(func);
        }
        if let Some(local) = self.local()? {
            self.expect(";")?;
            return Ok(local);
        }
        let e = self.expr()?;
        self.expect(";")?;
        Ok(self.st(line, S::Expr(e)))
    }

    /// A pattern of a `case`: casts and conditional expressions are constants.
    fn case_pattern(&mut self) -> P<Pattern> {
        if self.is("(") {
            return Ok(Pattern::Const(self.coalesce()?));
        }
        let at = self.at;
        let pattern = self.pattern()?;
        if self.is(":") || self.is_kw("when") {
            return Ok(pattern);
        }
        self.at = at;
        Ok(Pattern::Const(self.ternary()?))
    }

    fn local_func(&mut self) -> P<Option<Stmt>> {
        let line = self.line();
        let head = self.attempt(|p| {
            p.eat_kw("static");
            let ret = p.ty()?;
            let fname = p.ident()?;
            let tparams = p.tparams()?;
            if !p.is("(") {
                return Err(String::new());
            }
            p.next();
            let params = p.params(")")?;
            let _ = p.wheres()?;
            if !p.is("{") && !p.is("=>") {
                return Err(String::new());
            }
            Ok((ret, fname, tparams, params))
        });
        let Some((ret, fname, tparams, params)) = head else { return Ok(None) };
        let body = self.body()?;
        let method = Method {
            name: fname,
            tparams,
            params,
            ret: Some(ret),
            body,
            is_static: false,
            is_public: false,
            is_override: false,
            chain: None,
            is_ctor: false,
            explicit: false,
            line,
            broken: Cell::new(false),
        };
        Ok(Some(self.st(line, S::Func(Rc::new(method)))))
    }

    /// A declaration of local variables (up to its semicolon), or a deconstruction into new ones.
    fn local(&mut self) -> P<Option<Stmt>> {
        let line = self.line();
        if self.is_kw("var") && matches!(self.peek_at(1), Tok::Op("(")) {
            self.at += 2;
            let mut vars = Vec::new();
            while !self.eat(")") {
                let var = self.ident()?;
                let ty = self.ty_ref(TyKind::Var, line);
                vars.push((None, self.e(line, E::Decl(ty, var))));
                self.eat(",");
            }
            self.expect("=")?;
            let e = self.expr()?;
            let target = self.e(line, E::Tuple(vars));
            let assign = self.e(line, E::Assign("=", Box::new(target), Box::new(e)));
            return Ok(Some(self.st(line, S::Expr(assign))));
        }
        let head = self.attempt(|p| {
            let ty = p.ty()?;
            let var = p.ident()?;
            if !matches!(p.peek(), Tok::Op("=" | ";" | "," | ")")) {
                return Err(String::new());
            }
            Ok((ty, var))
        });
        let Some((ty, first)) = head else { return Ok(None) };
        let mut vars = Vec::new();
        let mut var = first;
        loop {
            let init = if self.eat("=") {
                Some(if self.is("{") {
                    let items = self.array_init()?;
                    self.e(line, E::NewArray(None, None, Some(items)))
                } else {
                    self.expr()?
                })
            } else {
                None
            };
            vars.push((var, init));
            if !self.eat(",") {
                break;
            }
            var = self.ident()?;
        }
        Ok(Some(self.st(line, S::Local(ty, vars))))
    }

    // ------------------------------------------------------------ declarations

    fn tparams(&mut self) -> P<Vec<Sym>> {
        let mut out = Vec::new();
        if self.eat("<") {
            loop {
                if !self.eat_kw("in") {
                    self.eat_kw("out");
                }
                out.push(self.ident()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.close_angle()?;
        }
        Ok(out)
    }

    fn wheres(&mut self) -> P<Vec<TyRef>> {
        let mut out = Vec::new();
        while self.eat_kw("where") {
            self.ident()?;
            self.expect(":")?;
            loop {
                if self.eat_kw("class") || self.eat_kw("struct") || self.eat_kw("notnull") {
                    self.eat("?");
                } else if self.eat_kw("new") {
                    self.expect("(")?;
                    self.expect(")")?;
                } else {
                    out.push(self.ty()?);
                }
                if !self.eat(",") {
                    break;
                }
            }
        }
        Ok(out)
    }

    fn attributes(&mut self) -> P<()> {
        while self.is("[") {
            let mut depth = 0;
            loop {
                match self.next() {
                    Tok::Op("[") => depth += 1,
                    Tok::Op("]") => {
                        depth -= 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    Tok::End => return self.fail("`]`"),
                    _ => (),
                }
            }
        }
        Ok(())
    }

    fn params(&mut self, close: &str) -> P<Vec<Param>> {
        let mut out = Vec::new();
        while !self.eat(close) {
            self.attributes()?;
            let this = self.eat_kw("this");
            let by_ref = self.eat_kw("ref");
            let out_param = !by_ref && self.eat_kw("out");
            if !by_ref && !out_param {
                self.eat_kw("in");
            }
            let params = self.eat_kw("params");
            let ty = self.ty()?;
            let param = self.ident()?;
            let default = if self.eat("=") { Some(self.expr()?) } else { None };
            out.push(Param { name: param, ty, default, by_ref: by_ref || out_param, out: out_param, this, params });
            if !self.is(close) {
                self.expect(",")?;
            }
        }
        Ok(out)
    }

    fn body(&mut self) -> P<Body> {
        if self.is("{") {
            return Ok(Body::Block(self.block()?));
        }
        if self.eat("=>") {
            let e = self.expr()?;
            self.expect(";")?;
            return Ok(Body::Expr(e));
        }
        self.expect(";")?;
        Ok(Body::None)
    }

    fn modifiers(&mut self) -> Vec<Rc<str>> {
        let mut out = Vec::new();
        loop {
            let Tok::Ident(s, false) = self.peek() else { return out };
            let text = name(*s);
            let modifier = matches!(
                &*text,
                "public" | "private" | "protected" | "internal" | "static" | "sealed" | "abstract" | "virtual" | "override"
                    | "readonly" | "const" | "new" | "extern" | "volatile"
            ) || (&*text == "partial"
                && matches!(self.peek_at(1), Tok::Ident(s, false) if matches!(&*name(*s), "class" | "interface" | "struct" | "void")));
            if &*text == "unsafe" || !modifier {
                return out;
            }
            self.next();
            out.push(text);
        }
    }

    fn unit(&mut self, file: &str) -> P<Unit> {
        let mut unit = Unit { file: file.into(), usings: vec![], aliases: vec![], types: vec![] };
        self.namespace_body(&mut unit, "", false)?;
        if !matches!(self.peek(), Tok::End) {
            return self.fail("the end of the file");
        }
        Ok(unit)
    }

    fn dotted(&mut self) -> P<String> {
        let mut path = name(self.ident()?).to_string();
        while self.eat(".") {
            path.push('.');
            path.push_str(&name(self.ident()?));
        }
        Ok(path)
    }

    fn namespace_body(&mut self, unit: &mut Unit, ns: &str, braced: bool) -> P<()> {
        loop {
            if braced && self.eat("}") {
                return Ok(());
            }
            if matches!(self.peek(), Tok::End) {
                return if braced { self.fail("`}`") } else { Ok(()) };
            }
            if self.eat_kw("using") {
                if self.is_kw("static") {
                    return Err(format!("line {}: unsupported: `using static`", self.line()));
                }
                if self.is_ident() && matches!(self.peek_at(1), Tok::Op("=")) {
                    let alias = self.ident()?;
                    self.next();
                    let ty = self.ty()?;
                    unit.aliases.push((alias, ty));
                } else {
                    let used = self.dotted()?;
                    unit.usings.push((*used).into());
                }
                self.expect(";")?;
                continue;
            }
            if self.eat_kw("namespace") {
                let inner = self.dotted()?;
                let full = if ns.is_empty() { inner } else { format!("{}.{}", ns, inner) };
                if self.eat(";") {
                    self.namespace_body(unit, &full, false)?;
                    return Ok(());
                }
                self.expect("{")?;
                self.namespace_body(unit, &full, true)?;
                continue;
            }
            self.attributes()?;
            let line = self.line();
            let mods = self.modifiers();
            let Some(decl) = self.type_decl(&mods, line)? else {
                return self.fail("a type or namespace");
            };
            unit.types.push((ns.into(), decl));
        }
    }

    fn type_decl(&mut self, mods: &[Rc<str>], line: u32) -> P<Option<TypeDecl>> {
        let has = |m: &str| mods.iter().any(|x| &**x == m);
        let kind = if self.eat_kw("class") {
            Kind::Class
        } else if self.eat_kw("interface") {
            Kind::Interface
        } else if self.eat_kw("enum") {
            Kind::Enum
        } else if self.is_kw("struct") || self.is_kw("delegate") {
            return Err(format!("line {}: unsupported: declaration of a struct or delegate", line));
        } else {
            return Ok(None);
        };
        let mut decl = TypeDecl {
            kind,
            is_static: has("static"),
            is_public: has("public"),
            is_partial: has("partial"),
            name: self.ident()?,
            tparams: self.tparams()?,
            bases: vec![],
            wheres: vec![],
            members: vec![],
            nested: vec![],
            line,
        };
        if self.eat(":") {
            loop {
                decl.bases.push(self.ty()?);
                if !self.eat(",") {
                    break;
                }
            }
        }
        decl.wheres = self.wheres()?;
        self.expect("{")?;
        if kind == Kind::Enum {
            let mut last: Option<Rc<Field>> = None;
            while !self.eat("}") {
                self.attributes()?;
                let line = self.line();
                let field = self.ident()?;
                let init = if self.eat("=") {
                    self.expr()?
                } else {
                    match &last {
                        None => self.e(line, E::Lit(Lit::Int(0, ""))),
                        Some(last) => {
                            let before = self.e(line, E::Name(last.name, vec![], OnceCell::new()));
                            let one = self.e(line, E::Lit(Lit::Int(1, "")));
                            self.e(line, E::Binary("+", Box::new(before), Box::new(one)))
                        }
                    }
                };
                let f = Rc::new(Field {
                    name: field,
                    ty: self.ty_ref(TyKind::Var, line),
                    is_static: true,
                    is_const: true,
                    is_event: false,
                    init: Some(init),
                    line,
                });
                last = Some(f.clone());
                decl.members.push(Member::Field(f));
                if !self.is("}") {
                    self.expect(",")?;
                }
            }
        } else {
            while !self.eat("}") {
                self.member(&mut decl)?;
            }
        }
        self.eat(";");
        Ok(Some(decl))
    }

    #[allow(clippy::too_many_arguments)]
    fn accessor(
        &mut self, prop: Sym, params: Vec<Param>, ret: Option<TyRef>, mods: &[Rc<str>], line: u32, body: Body,
    ) -> Rc<Method> {
        let has = |m: &str| mods.iter().any(|x| &**x == m);
        self.fresh += 1;
        Rc::new(Method {
            name: prop,
            tparams: vec![],
            params,
            ret: Some(ret.unwrap_or_else(|| self.void(line))),
            body,
            is_static: has("static"),
            is_public: has("public"),
            is_override: has("override"),
            chain: None,
            is_ctor: false,
            explicit: false,
            line,
            broken: Cell::new(false),
        })
    }

    fn void(&self, line: u32) -> TyRef {
        self.ty_ref(TyKind::Name(vec![(sym("System.Void"), vec![])]), line)
    }

    fn member(&mut self, decl: &mut TypeDecl) -> P<()> {
        self.attributes()?;
        let line = self.line();
        let mods = self.modifiers();
        let has = |m: &str| mods.iter().any(|x| &**x == m);
        let interface = decl.kind == Kind::Interface;
        if let Some(nested) = self.type_decl(&mods, line)? {
            decl.nested.push(nested);
            return Ok(());
        }
        if self.is("~") {
            return Err(format!("line {}: unsupported: finalizer", line));
        }
        let is_event = self.eat_kw("event");
        // Constructors
        if matches!(self.peek(), Tok::Ident(s, _) if *s == decl.name) && matches!(self.peek_at(1), Tok::Op("(")) {
            self.at += 2;
            let params = self.params(")")?;
            let mut chain = None;
            if self.eat(":") {
                let this = self.eat_kw("this");
                if !this {
                    self.expect_kw("base")?;
                }
                self.expect("(")?;
                chain = Some((this, self.args(")")?));
            }
            let body = self.body()?;
            decl.members.push(Member::Method(Rc::new(Method {
                name: decl.name,
                tparams: vec![],
                params,
                ret: None,
                body,
                is_static: has("static"),
                is_public: has("public"),
                is_override: false,
                chain,
                is_ctor: true,
                explicit: false,
                line,
                broken: Cell::new(false),
            })));
            return Ok(());
        }
        if self.is_kw("implicit") || self.is_kw("explicit") {
            return Err(format!("line {}: unsupported: conversion operator", line));
        }
        let ty = self.ty()?;
        if self.is_kw("operator") {
            return Err(format!("line {}: unsupported: operator", line));
        }
        // The name, qualified by an interface if that is implemented explicitly.
        let mut explicit = false;
        let mut member;
        loop {
            if self.is_kw("this") {
                self.next();
                member = s::Item;
                break;
            }
            member = self.ident()?;
            let at = self.at;
            if self.is("<") {
                let qualifies = self.attempt(|p| {
                    p.ty_args()?;
                    p.expect(".")
                });
                if qualifies.is_some() {
                    explicit = true;
                    continue;
                }
                self.at = at;
            }
            if self.eat(".") {
                explicit = true;
                continue;
            }
            break;
        }
        if member == s::Item && self.is("[") {
            self.next();
            let params = self.params("]")?;
            let prop = self.prop(member, ty, params, &mods, line, interface)?;
            decl.members.push(Member::Indexer(Rc::new(prop)));
            return Ok(());
        }
        let at = self.at;
        let tparams = self.tparams().unwrap_or_default();
        if self.eat("(") {
            let params = self.params(")")?;
            let _ = self.wheres()?;
            let body = self.body()?;
            decl.members.push(Member::Method(Rc::new(Method {
                name: member,
                tparams,
                params,
                ret: Some(ty),
                body,
                is_static: has("static"),
                is_public: has("public") || interface || explicit,
                is_override: has("override"),
                chain: None,
                is_ctor: false,
                explicit,
                line,
                broken: Cell::new(false),
            })));
            return Ok(());
        }
        self.at = at;
        if self.is("{") || self.is("=>") {
            if is_event {
                return Err(format!("line {}: unsupported: event accessors", line));
            }
            let prop = self.prop(member, ty, vec![], &mods, line, interface)?;
            decl.members.push(Member::Prop(Rc::new(prop)));
            return Ok(());
        }
        // Fields
        let ty = Rc::new(ty);
        let mut field = member;
        let mut first = Some(ty);
        loop {
            let init = if self.eat("=") {
                Some(if self.is("{") {
                    let items = self.array_init()?;
                    self.e(line, E::NewArray(None, None, Some(items)))
                } else {
                    self.expr()?
                })
            } else {
                None
            };
            let Some(ty) = first.take().and_then(|t| Rc::try_unwrap(t).ok()) else {
                return Err(format!("line {}: unsupported: several fields in one declaration", line));
            };
            decl.members.push(Member::Field(Rc::new(Field {
                name: field,
                ty,
                is_static: has("static") || has("const"),
                is_const: has("const"),
                is_event,
                init,
                line,
            })));
            if !self.eat(",") {
                break;
            }
            field = self.ident()?;
        }
        self.expect(";")
    }

    fn prop(&mut self, member: Sym, ty: TyRef, params: Vec<Param>, mods: &[Rc<str>], line: u32, interface: bool) -> P<Prop> {
        let has = |m: &str| mods.iter().any(|x| &**x == m);
        let again = self.at;
        let (mut get, mut set, mut auto, mut init) = (None, None, false, None);
        // Types and parameters are needed once per accessor; they are read anew for each of them.
        let clone_ty = |t: &TyRef| clone_ty(t);
        let clone_params = |ps: &[Param]| -> Vec<Param> {
            ps.iter()
                .map(|p| Param {
                    name: p.name,
                    ty: clone_ty(&p.ty),
                    default: None,
                    by_ref: p.by_ref,
                    out: p.out,
                    this: p.this,
                    params: p.params,
                })
                .collect()
        };
        let _ = again;
        if self.eat("=>") {
            let e = self.expr()?;
            self.expect(";")?;
            get = Some(self.accessor(member, clone_params(&params), Some(clone_ty(&ty)), mods, line, Body::Expr(e)));
        } else {
            self.expect("{")?;
            while !self.eat("}") {
                self.attributes()?;
                let line = self.line();
                self.modifiers();
                let getter = self.eat_kw("get");
                if !getter && !self.eat_kw("set") && !self.eat_kw("init") {
                    return self.fail("an accessor");
                }
                let body = self.body()?;
                if matches!(body, Body::None) && !interface && !has("abstract") {
                    auto = true;
                }
                if getter {
                    get = Some(self.accessor(member, clone_params(&params), Some(clone_ty(&ty)), mods, line, body));
                } else {
                    let mut with = clone_params(&params);
                    with.push(Param {
                        name: s::value,
                        ty: clone_ty(&ty),
                        default: None,
                        by_ref: false,
                        out: false,
                        this: false,
                        params: false,
                    });
                    set = Some(self.accessor(member, with, None, mods, line, body));
                }
            }
            if self.eat("=") {
                init = Some(self.expr()?);
                self.expect(";")?;
            }
        }
        Ok(Prop {
            name: member,
            ty,
            is_static: has("static"),
            is_public: has("public") || interface,
            get,
            set,
            auto,
            init,
            line,
        })
    }
}

pub fn clone_ty(t: &TyRef) -> TyRef {
    let kind = match &t.kind {
        TyKind::Name(segments) => TyKind::Name(segments.iter().map(|(n, a)| (*n, a.iter().map(clone_ty).collect())).collect()),
        TyKind::Array(t) => TyKind::Array(Box::new(clone_ty(t))),
        TyKind::Nullable(t) => TyKind::Nullable(Box::new(clone_ty(t))),
        TyKind::Tuple(items) => TyKind::Tuple(items.iter().map(|(t, n)| (clone_ty(t), *n)).collect()),
        TyKind::Var => TyKind::Var,
    };
    TyRef { kind, line: t.line, cache: OnceCell::new() }
}

pub fn parse(file: &str, src: &str) -> Result<Unit, String> {
    Parser::new(src).and_then(|mut p| p.unit(file)).map_err(|e| format!("{}: {}", file, e))
}

/// Reads a type as written within some file.
pub fn parse_ty(src: &str) -> Result<TyRef, String> {
    let mut p = Parser::new(src)?;
    let ty = p.ty()?;
    if !matches!(p.peek(), Tok::End) {
        return p.fail("the end of the type");
    }
    Ok(ty)
}
