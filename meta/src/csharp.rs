//! Reads generated C#.

use std::collections::BTreeMap;

#[derive(Debug, Default)]
pub struct Class {
    pub name: String,
    pub params: Vec<String>,
    /// Types and names of properties, in order.
    pub props: Vec<(String, String)>,
    /// Members are given by their heads, without spaces.
    pub members: Vec<(String, Vec<String>)>,
    pub consts: Vec<(String, String)>,
    pub inner: Vec<Class>,
}

#[derive(Debug)]
pub struct File {
    pub usings: Vec<String>,
    pub namespace: String,
    pub classes: Vec<Class>,
}

fn tokens(text: &str) -> Result<Vec<String>, String> {
    let chars: Vec<char> = text.chars().collect();
    let (mut i, mut to) = (0, Vec::new());
    while i < chars.len() {
        let c = chars[i];
        if c == '/' && chars.get(i + 1) == Some(&'/') {
            while i < chars.len() && chars[i] != '\n' {
                i += 1;
            }
        } else if c.is_whitespace() {
            i += 1;
        } else if c.is_alphanumeric() || c == '_' {
            let from = i;
            while i < chars.len() && (chars[i].is_alphanumeric() || chars[i] == '_') {
                i += 1;
            }
            to.push(chars[from..i].iter().collect());
        } else if "{}()[]<>;:,.?=+-|&!".contains(c) {
            to.push(c.to_string());
            i += 1;
        } else {
            return Err(format!("unexpected {:?} in C#", c));
        }
    }
    Ok(to)
}

/// Words are kept apart, nothing else.
pub fn join(tokens: &[String]) -> String {
    let mut to = String::new();
    for t in tokens {
        let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
        if word(to.chars().last()) && word(t.chars().next()) {
            to.push(' ');
        }
        to += t;
    }
    to
}

struct Parser {
    tokens: Vec<String>,
    at: usize,
}

impl Parser {
    fn peek(&self) -> &str {
        self.tokens.get(self.at).map_or("", |t| t)
    }

    fn next(&mut self) -> Result<String, String> {
        let t = self.tokens.get(self.at).cloned().ok_or("C# ends early")?;
        self.at += 1;
        Ok(t)
    }

    fn expect(&mut self, t: &str) -> Result<(), String> {
        let got = self.next()?;
        if got == t { Ok(()) } else { Err(format!("{:?} instead of {:?} in C#", got, t)) }
    }

    fn until(&mut self, ends: &[&str]) -> Result<Vec<String>, String> {
        let mut to = Vec::new();
        while !ends.contains(&self.peek()) {
            to.push(self.next()?);
        }
        Ok(to)
    }

    /// What is inside braces, after the opening one.
    fn block(&mut self) -> Result<Vec<String>, String> {
        let (mut depth, mut to) = (1, Vec::new());
        loop {
            let t = self.next()?;
            match &*t {
                "{" => depth += 1,
                "}" => depth -= 1,
                _ => (),
            }
            if depth == 0 {
                return Ok(to);
            }
            to.push(t);
        }
    }

    fn class(&mut self, head: Vec<String>) -> Result<Class, String> {
        let at = head.iter().position(|t| t == "class").unwrap();
        let mut class = Class { name: head[at + 1].clone(), ..Class::default() };
        let rest = &head[at + 2..];
        let colon = rest.iter().position(|t| t == ":").ok_or("class without a base")?;
        if colon > 0 {
            class.params = rest[1..colon - 1].iter().filter(|t| *t != ",").cloned().collect();
        }
        while self.peek() != "}" {
            let head = self.until(&["{", ";"])?;
            if self.next()? == ";" {
                if head.contains(&"const".to_string()) {
                    let at = head.iter().position(|t| t == "=").ok_or("constant without value")?;
                    class.consts.push((head[at - 1].clone(), join(&head[at + 1..])));
                }
                continue;
            }
            if head.contains(&"class".to_string()) {
                class.inner.push(self.class(head)?);
                continue;
            }
            let body = self.block()?;
            if join(&body) == "get;private set;" {
                let name = head.last().unwrap().clone();
                let from = head.iter().position(|t| t == "public").ok_or("property which is not public")?;
                class.props.push((join(&head[from + 1..head.len() - 1]), name));
            } else {
                class.members.push((join(&head), body));
            }
        }
        self.expect("}")?;
        Ok(class)
    }
}

pub fn parse(text: &str) -> Result<File, String> {
    let mut p = Parser { tokens: tokens(text)?, at: 0 };
    let mut usings = Vec::new();
    while p.peek() == "using" {
        p.next()?;
        usings.push(join(&p.until(&[";"])?));
        p.expect(";")?;
    }
    p.expect("namespace")?;
    let namespace = join(&p.until(&["{"])?);
    p.expect("{")?;
    let mut classes = Vec::new();
    while p.peek() != "}" {
        let head = p.until(&["{"])?;
        p.expect("{")?;
        classes.push(p.class(head)?);
    }
    p.expect("}")?;
    if p.at != p.tokens.len() {
        return Err("more after the namespace".into());
    }
    Ok(File { usings, namespace, classes })
}

impl Class {
    /// The only member whose head contains something.
    pub fn member(&self, part: &str) -> Result<&[String], String> {
        let found: Vec<_> = self.members.iter().filter(|m| m.0.contains(part)).collect();
        match &found[..] {
            [m] => Ok(&m.1),
            _ => Err(format!("{} members with {:?} in {}", found.len(), part, self.name)),
        }
    }

    /// The cases of the switch in a member, by label.
    pub fn cases(&self, part: &str) -> Result<BTreeMap<String, String>, String> {
        let body = self.member(part)?;
        let mut to = BTreeMap::new();
        let mut i = 0;
        while i < body.len() {
            let label = match &*body[i] {
                "case" => {
                    let label = body[i + 1].clone();
                    i += 3;
                    label
                }
                "default" => {
                    i += 2;
                    "default".into()
                }
                _ => {
                    i += 1;
                    continue;
                }
            };
            let from = i;
            while i < body.len() && body[i] != "case" && body[i] != "default" && body[i] != "}" {
                i += 1;
            }
            let code = join(&body[from..i]);
            if to.insert(label.clone(), code).is_some() {
                return Err(format!("case {} twice in {}", label, self.name));
            }
        }
        Ok(to)
    }

    /// Assignments made in a member outside of any switch.
    pub fn assigned(&self, part: &str) -> Result<BTreeMap<String, String>, String> {
        let mut to = BTreeMap::new();
        for statement in self.member(part)?.split(|t| t == ";") {
            let text = join(statement);
            if let Some((left, right)) = text.strip_prefix("this.").and_then(|t| t.split_once('=')) {
                if to.insert(left.into(), right.into()).is_some() {
                    return Err(format!("{} is assigned twice in {}", left, self.name));
                }
            }
        }
        Ok(to)
    }
}
