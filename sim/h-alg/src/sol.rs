//! A small Solidity: enough to run the verifier contracts, with the EVM's memory under them, so that
//! inline assembly means what it means on chain.
use crate::bn::{word, Known};
use num_bigint::BigUint;
use std::collections::BTreeMap;

/// Why a run ends without a value.
#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    /// The transaction is reverted.
    Revert(String),
    /// No compiler accepts this.
    Bad(String),
    /// Solidity, but not of the part known here.
    Unknown(String),
}
use Stop::*;
type Res<T> = Result<T, Stop>;
fn bad<T>(s: impl Into<String>) -> Res<T> {
    Err(Bad(s.into()))
}
fn unknown<T>(s: impl Into<String>) -> Res<T> {
    Err(Unknown(s.into()))
}
fn small(x: u64) -> BigUint {
    BigUint::from(x)
}
fn modulus() -> BigUint {
    small(1) << 256
}

// ------------------------------------------------------------------ tokens
#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    /// The number, and whether it reads like an address.
    Num(BigUint, bool),
    Str,
    P(&'static str),
    End,
}
const PUNCT: &[&str] = &[
    ">>=", "<<=", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "%=", ":=", "=>", "->", "**",
    "<<", ">>", "(", ")", "[", "]", "{", "}", ";", ",", ".", "?", ":", "=", "<", ">", "+", "-", "*", "/", "%", "!", "&",
    "|", "^", "~",
];
fn tokens(src: &str) -> Res<Vec<T>> {
    let s = src.as_bytes();
    let (mut i, mut out) = (0, vec![]);
    while i < s.len() {
        let c = s[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if src[i..].starts_with("//") {
            i += src[i..].find('\n').unwrap_or(s.len() - i);
        } else if src[i..].starts_with("/*") {
            match src[i + 2..].find("*/") {
                Some(n) => i += n + 4,
                None => return bad("comment without an end"),
            }
        } else if c == b'"' || c == b'\'' {
            let Some(n) = src[i + 1..].find(c as char) else { return bad("string without an end") };
            i += n + 2;
            out.push(T::Str);
        } else if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let n = s[i..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_' || **c == b'$').count();
            out.push(T::Id(src[i..i + n].into()));
            i += n;
        } else if c.is_ascii_digit() {
            let n = s[i..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_').count();
            let t = src[i..i + n].replace('_', "");
            i += n;
            let x = match t.strip_prefix("0x") {
                Some(h) => BigUint::parse_bytes(h.as_bytes(), 16),
                None if t.len() > 1 && t.starts_with('0') => return bad(format!("number {t}")),
                None => BigUint::parse_bytes(t.as_bytes(), 10),
            };
            match x {
                Some(x) => out.push(T::Num(x, t.starts_with("0x") && t.len() == 42)),
                None if t.contains('e') && !t.starts_with("0x") => return unknown(format!("number {t}")),
                None => return bad(format!("number {t}")),
            }
        } else if let Some(p) = PUNCT.iter().find(|p| src[i..].starts_with(**p)) {
            out.push(T::P(p));
            i += p.len();
        } else {
            return bad(format!("character {:?}", src[i..].chars().next()));
        }
    }
    out.push(T::End);
    Ok(out)
}

// ------------------------------------------------------------------ trees
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Uint(u32),
    Bool,
    Bytes32,
    Address,
    Named(Vec<String>),
    Fixed(Box<Ty>, usize),
    Dyn(Box<Ty>),
    Many(Vec<Ty>),
    Lib(String),
}
#[derive(Clone, Debug)]
enum E {
    Num(BigUint, bool),
    Bool(bool),
    Str,
    Id(String),
    Member(Box<E>, String),
    Index(Box<E>, Box<E>),
    Call(Box<E>, Vec<E>),
    Named(Box<E>, Vec<(String, E)>),
    New(Ty, Vec<E>),
    Cast(Ty, Box<E>),
    Array(Vec<E>),
    Tuple(Vec<Option<E>>),
    Un(&'static str, Box<E>),
    Post(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    Set(&'static str, Box<E>, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
}
#[derive(Clone, Debug)]
enum S {
    Block(Vec<S>),
    Unchecked(Vec<S>),
    If(E, Box<S>, Option<Box<S>>),
    For(Box<S>, Option<E>, Option<E>, Box<S>),
    DoWhile(Box<S>, E),
    Return(Option<E>),
    Expr(E),
    Let(Vec<Option<(Ty, String)>>, Option<E>),
    Asm(Vec<Y>),
    Break,
    Continue,
    Nothing,
}
#[derive(Clone, Debug)]
enum Y {
    Block(Vec<Y>),
    Let(Vec<String>, Option<YE>),
    Set(Vec<String>, YE),
    If(YE, Vec<Y>),
    Switch(YE, Vec<(BigUint, Vec<Y>)>, Option<Vec<Y>>),
    For(Vec<Y>, YE, Vec<Y>, Vec<Y>),
    Expr(YE),
    Break,
    Continue,
}
#[derive(Clone, Debug)]
enum YE {
    Num(BigUint),
    Id(String),
    Call(String, Vec<YE>),
}
#[derive(Clone, Debug, Default)]
struct Part {
    structs: BTreeMap<String, Vec<(Ty, String)>>,
    functions: Vec<Fun>,
    constants: BTreeMap<String, (Ty, E)>,
}
#[derive(Clone, Debug)]
pub struct Fun {
    name: String,
    args: Vec<(Ty, String)>,
    outs: Vec<(Ty, String)>,
    body: Vec<S>,
    public: bool,
}

/// Words of parts of the language which are not known here.
const FOREIGN: &[&str] = &[
    "mapping", "event", "error", "modifier", "interface", "import", "constructor", "emit", "delete", "try", "abstract",
    "is", "enum", "type", "override", "virtual", "immutable", "bytes", "string", "payable", "storage", "fallback",
    "receive", "hex", "unicode", "int", "int256", "leave", "function", "abi", "keccak256", "sha256", "this", "msg",
    "block", "tx", "new", "assembly",
];
struct Parser {
    t: Vec<T>,
    i: usize,
}
impl Parser {
    fn peek(&self) -> &T {
        &self.t[self.i]
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), T::P(x) if *x == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let y = self.is(p);
        self.i += y as usize;
        y
    }
    fn word(&self, w: &str) -> bool {
        matches!(self.peek(), T::Id(x) if x == w)
    }
    fn eat_word(&mut self, w: &str) -> bool {
        let y = self.word(w);
        self.i += y as usize;
        y
    }
    fn wrong<X>(&self, what: &str) -> Res<X> {
        let near: Vec<&T> = self.t[self.i.saturating_sub(6)..(self.i + 3).min(self.t.len())].iter().collect();
        match self.peek() {
            T::Id(w) if FOREIGN.contains(&w.as_str()) => unknown(w.clone()),
            _ => bad(format!("{what} expected at {near:?}")),
        }
    }
    fn need(&mut self, p: &str) -> Res<()> {
        if self.eat(p) {
            return Ok(());
        }
        self.wrong(p)
    }
    fn id(&mut self) -> Res<String> {
        match self.peek().clone() {
            T::Id(w) if !FOREIGN.contains(&w.as_str()) => {
                self.i += 1;
                Ok(w)
            }
            _ => self.wrong("name"),
        }
    }
    fn elementary(w: &str) -> Option<Ty> {
        match w {
            "uint" => return Some(Ty::Uint(256)),
            "bool" => return Some(Ty::Bool),
            "bytes32" => return Some(Ty::Bytes32),
            "address" => return Some(Ty::Address),
            _ => {}
        }
        let n: u32 = w.strip_prefix("uint")?.parse().ok()?;
        (n % 8 == 0 && (8..=256).contains(&n)).then_some(Ty::Uint(n))
    }
    fn base_type(&mut self) -> Res<Ty> {
        let w = self.id()?;
        if let Some(t) = Self::elementary(&w) {
            return Ok(t);
        }
        let mut v = vec![w];
        while self.eat(".") {
            v.push(self.id()?);
        }
        Ok(Ty::Named(v))
    }
    fn ty(&mut self) -> Res<Ty> {
        let mut t = self.base_type()?;
        while self.eat("[") {
            t = match self.peek().clone() {
                T::Num(n, _) => {
                    self.i += 1;
                    let n = n.to_string().parse().unwrap_or(0);
                    if n == 0 || n > 1 << 20 {
                        return bad("array of no or too great a length");
                    }
                    Ty::Fixed(Box::new(t), n)
                }
                T::Id(_) => return unknown("length by name"),
                _ => Ty::Dyn(Box::new(t)),
            };
            self.need("]")?;
        }
        Ok(t)
    }
    fn location(&mut self) -> bool {
        self.eat_word("memory") || self.eat_word("calldata")
    }
    fn params(&mut self) -> Res<Vec<(Ty, String)>> {
        self.need("(")?;
        let mut v = vec![];
        while !self.eat(")") {
            let t = self.ty()?;
            let loc = self.location();
            let reference = !matches!(t, Ty::Uint(_) | Ty::Bool | Ty::Bytes32 | Ty::Address);
            if loc != reference {
                return bad("data location");
            }
            let name = if matches!(self.peek(), T::Id(_)) { self.id()? } else { String::new() };
            v.push((t, name));
            if !self.is(")") {
                self.need(",")?;
                if self.is(")") {
                    return self.wrong("parameter");
                }
            }
        }
        Ok(v)
    }
    fn skip_to(&mut self, p: &str) -> Res<()> {
        while !self.is(p) {
            if self.peek() == &T::End {
                return self.wrong(p);
            }
            self.i += 1;
        }
        self.need(p)
    }
    fn file(&mut self) -> Res<(BTreeMap<String, Part>, Option<String>)> {
        let (mut parts, mut contract) = (BTreeMap::new(), None);
        while self.peek() != &T::End {
            if self.eat_word("pragma") {
                self.skip_to(";")?;
                continue;
            }
            let is_contract = self.word("contract");
            if !self.eat_word("library") && !self.eat_word("contract") {
                return self.wrong("library or contract");
            }
            let name = self.id()?;
            self.need("{")?;
            let part = self.part()?;
            if parts.insert(name.clone(), part).is_some() {
                return bad(format!("{name} twice"));
            }
            if is_contract {
                contract = Some(name);
            }
        }
        Ok((parts, contract))
    }
    fn part(&mut self) -> Res<Part> {
        let mut p = Part::default();
        while !self.eat("}") {
            if self.eat_word("using") {
                self.skip_to(";")?;
            } else if self.eat_word("struct") {
                let name = self.id()?;
                self.need("{")?;
                let mut fields = vec![];
                while !self.eat("}") {
                    let t = self.ty()?;
                    fields.push((t, self.id()?));
                    self.need(";")?;
                }
                if fields.is_empty() || p.structs.insert(name, fields).is_some() {
                    return bad("struct");
                }
            } else if self.eat_word("function") {
                let name = self.id()?;
                let args = self.params()?;
                let (mut outs, mut public) = (vec![], false);
                while !self.is("{") {
                    if self.eat_word("returns") {
                        outs = self.params()?;
                        continue;
                    }
                    let w = self.id()?;
                    match w.as_str() {
                        "public" | "external" => public = true,
                        "internal" | "private" | "view" | "pure" => {}
                        _ => return unknown(format!("modifier {w}")),
                    }
                }
                let body = self.block()?;
                p.functions.push(Fun { name, args, outs, body, public });
            } else {
                // constants
                let t = self.ty()?;
                let mut constant = false;
                loop {
                    if self.eat_word("constant") {
                        constant = true;
                    } else if !["public", "private", "internal"].iter().any(|w| self.eat_word(w)) {
                        break;
                    }
                }
                let name = self.id()?;
                if !constant {
                    return unknown("state");
                }
                self.need("=")?;
                let e = self.expr()?;
                self.need(";")?;
                p.constants.insert(name, (t, e));
            }
        }
        Ok(p)
    }
    fn block(&mut self) -> Res<Vec<S>> {
        self.need("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.statement()?);
        }
        Ok(v)
    }
    /// A declaration, if one starts here.
    fn declaration(&mut self) -> Res<Option<S>> {
        let start = self.i;
        let one = |p: &mut Parser| -> Option<(Ty, String)> {
            let t = p.ty().ok()?;
            p.location();
            let n = p.id().ok()?;
            Some((t, n))
        };
        let names = if self.is("(") {
            self.i += 1;
            let mut v = vec![];
            loop {
                if self.is(",") || self.is(")") {
                    v.push(None);
                } else {
                    match one(self) {
                        Some(d) => v.push(Some(d)),
                        None => break,
                    }
                }
                if !self.eat(",") {
                    break;
                }
            }
            if !self.eat(")") || !self.is("=") || v.iter().all(|x| x.is_none()) {
                self.i = start;
                return Ok(None);
            }
            v
        } else {
            match one(self) {
                Some(d) if self.is("=") || self.is(";") => vec![Some(d)],
                _ => {
                    self.i = start;
                    return Ok(None);
                }
            }
        };
        let e = if self.eat("=") { Some(self.expr()?) } else { None };
        self.need(";")?;
        Ok(Some(S::Let(names, e)))
    }
    fn simple(&mut self) -> Res<S> {
        if let Some(d) = self.declaration()? {
            return Ok(d);
        }
        let e = self.expr()?;
        self.need(";")?;
        Ok(S::Expr(e))
    }
    fn statement(&mut self) -> Res<S> {
        if self.is("{") {
            return Ok(S::Block(self.block()?));
        }
        if self.eat(";") {
            return self.wrong("statement");
        }
        if self.eat_word("unchecked") {
            return Ok(S::Unchecked(self.block()?));
        }
        if self.eat_word("if") {
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            let a = self.statement()?;
            let b = if self.eat_word("else") { Some(Box::new(self.statement()?)) } else { None };
            return Ok(S::If(c, Box::new(a), b));
        }
        if self.eat_word("while") {
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            return Ok(S::For(Box::new(S::Nothing), Some(c), None, Box::new(self.statement()?)));
        }
        if self.eat_word("do") {
            let b = self.statement()?;
            if !self.eat_word("while") {
                return self.wrong("while");
            }
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            self.need(";")?;
            return Ok(S::DoWhile(Box::new(b), c));
        }
        if self.eat_word("for") {
            self.need("(")?;
            let init = if self.eat(";") { S::Nothing } else { self.simple()? };
            let c = if self.is(";") { None } else { Some(self.expr()?) };
            self.need(";")?;
            let post = if self.is(")") { None } else { Some(self.expr()?) };
            self.need(")")?;
            return Ok(S::For(Box::new(init), c, post, Box::new(self.statement()?)));
        }
        for (w, s) in [("break", S::Break), ("continue", S::Continue)] {
            if self.eat_word(w) {
                self.need(";")?;
                return Ok(s);
            }
        }
        if self.eat_word("return") {
            let e = if self.is(";") { None } else { Some(self.expr()?) };
            self.need(";")?;
            return Ok(S::Return(e));
        }
        if self.eat_word("assembly") {
            if self.peek() == &T::Str {
                self.i += 1;
            }
            if self.eat("(") {
                self.skip_to(")")?;
            }
            return Ok(S::Asm(self.yul_block()?));
        }
        self.simple()
    }
    // ---- inline assembly
    fn yul_block(&mut self) -> Res<Vec<Y>> {
        self.need("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.yul()?);
        }
        Ok(v)
    }
    fn yul_number(&mut self) -> Res<BigUint> {
        match self.peek().clone() {
            T::Num(x, _) => {
                self.i += 1;
                Ok(x)
            }
            _ => self.wrong("number"),
        }
    }
    fn yul(&mut self) -> Res<Y> {
        if self.is("{") {
            return Ok(Y::Block(self.yul_block()?));
        }
        if self.eat_word("let") {
            let mut v = vec![self.id()?];
            while self.eat(",") {
                v.push(self.id()?);
            }
            let e = if self.eat(":=") { Some(self.yul_expr()?) } else { None };
            return Ok(Y::Let(v, e));
        }
        if self.eat_word("if") {
            let c = self.yul_expr()?;
            return Ok(Y::If(c, self.yul_block()?));
        }
        if self.eat_word("switch") {
            let c = self.yul_expr()?;
            let (mut cases, mut other) = (vec![], None);
            while self.eat_word("case") {
                let n = if self.eat_word("true") {
                    small(1)
                } else if self.eat_word("false") {
                    small(0)
                } else {
                    self.yul_number()?
                };
                cases.push((n, self.yul_block()?));
            }
            if self.eat_word("default") {
                other = Some(self.yul_block()?);
            }
            return Ok(Y::Switch(c, cases, other));
        }
        if self.eat_word("for") {
            let a = self.yul_block()?;
            let c = self.yul_expr()?;
            let b = self.yul_block()?;
            return Ok(Y::For(a, c, b, self.yul_block()?));
        }
        for (w, s) in [("break", Y::Break), ("continue", Y::Continue)] {
            if self.eat_word(w) {
                return Ok(s);
            }
        }
        let start = self.i;
        let mut v = vec![self.id()?];
        while self.eat(",") {
            v.push(self.id()?);
        }
        if self.eat(":=") {
            return Ok(Y::Set(v, self.yul_expr()?));
        }
        self.i = start;
        Ok(Y::Expr(self.yul_expr()?))
    }
    fn yul_expr(&mut self) -> Res<YE> {
        if let T::Num(x, _) = self.peek().clone() {
            self.i += 1;
            return Ok(YE::Num(x));
        }
        if self.eat_word("true") {
            return Ok(YE::Num(small(1)));
        }
        if self.eat_word("false") {
            return Ok(YE::Num(small(0)));
        }
        // some of the functions' names are words elsewhere
        let mut w = match self.peek().clone() {
            T::Id(w) => w,
            _ => return self.wrong("expression"),
        };
        self.i += 1;
        while self.eat(".") {
            w = format!("{w}.{}", self.id()?);
        }
        if !self.eat("(") {
            return Ok(YE::Id(w));
        }
        let mut v = vec![];
        while !self.eat(")") {
            v.push(self.yul_expr()?);
            if !self.is(")") {
                self.need(",")?;
            }
        }
        Ok(YE::Call(w, v))
    }
    // ---- expressions
    fn expr(&mut self) -> Res<E> {
        let a = self.binary(0)?;
        if self.eat("?") {
            let b = self.expr()?;
            self.need(":")?;
            return Ok(E::Cond(Box::new(a), Box::new(b), Box::new(self.expr()?)));
        }
        for (p, op) in [
            ("=", ""), ("+=", "+"), ("-=", "-"), ("*=", "*"), ("/=", "/"), ("%=", "%"), ("<<=", "<<"), (">>=", ">>"),
        ] {
            if self.eat(p) {
                return Ok(E::Set(op, Box::new(a), Box::new(self.expr()?)));
            }
        }
        Ok(a)
    }
    fn binary(&mut self, level: usize) -> Res<E> {
        const LEVELS: &[&[&str]] = &[
            &["||"], &["&&"], &["==", "!="], &["<", ">", "<=", ">="], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"],
            &["*", "/", "%"], &["**"],
        ];
        if level == LEVELS.len() {
            return self.unary();
        }
        let mut a = self.binary(level + 1)?;
        while let Some(op) = LEVELS[level].iter().find(|p| self.is(p)) {
            self.i += 1;
            let b = self.binary(if *op == "**" { level } else { level + 1 })?;
            a = E::Bin(op, Box::new(a), Box::new(b));
        }
        Ok(a)
    }
    fn unary(&mut self) -> Res<E> {
        for op in ["!", "-", "~", "++", "--"] {
            if self.eat(op) {
                return Ok(E::Un(op, Box::new(self.unary()?)));
            }
        }
        self.postfix()
    }
    fn args(&mut self) -> Res<Vec<E>> {
        let mut v = vec![];
        while !self.eat(")") {
            v.push(self.expr()?);
            if !self.is(")") {
                self.need(",")?;
                if self.is(")") {
                    return self.wrong("argument");
                }
            }
        }
        Ok(v)
    }
    fn postfix(&mut self) -> Res<E> {
        let mut e = self.primary()?;
        loop {
            if self.eat("(") {
                if self.eat("{") {
                    let mut v = vec![];
                    while !self.eat("}") {
                        let n = self.id()?;
                        self.need(":")?;
                        v.push((n, self.expr()?));
                        if !self.is("}") {
                            self.need(",")?;
                        }
                    }
                    self.need(")")?;
                    e = E::Named(Box::new(e), v);
                } else {
                    e = E::Call(Box::new(e), self.args()?);
                }
            } else if self.eat("[") {
                let i = self.expr()?;
                self.need("]")?;
                e = E::Index(Box::new(e), Box::new(i));
            } else if self.eat(".") {
                e = E::Member(Box::new(e), self.id()?);
            } else if self.eat("++") {
                e = E::Post("+", Box::new(e));
            } else if self.eat("--") {
                e = E::Post("-", Box::new(e));
            } else if self.is("{") && matches!(e, E::Member(..)) && matches!(self.t[self.i + 2], T::P(":")) {
                return unknown("call options");
            } else {
                return Ok(e);
            }
        }
    }
    fn primary(&mut self) -> Res<E> {
        match self.peek().clone() {
            T::Num(x, a) => {
                self.i += 1;
                if x.bits() > 256 {
                    return bad("a number of more than 256 bits");
                }
                if matches!(self.peek(), T::Id(_)) {
                    return unknown("units");
                }
                Ok(E::Num(x, a))
            }
            T::Str => {
                self.i += 1;
                Ok(E::Str)
            }
            T::P("(") => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    if self.is(",") || self.is(")") {
                        v.push(None);
                    } else {
                        v.push(Some(self.expr()?));
                    }
                    if !self.eat(",") {
                        break;
                    }
                }
                self.need(")")?;
                match <[_; 1]>::try_from(v) {
                    Ok([Some(e)]) => Ok(e),
                    Ok(_) => self.wrong("expression"),
                    Err(v) => Ok(E::Tuple(v)),
                }
            }
            T::P("[") => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat("]") {
                    v.push(self.expr()?);
                    if !self.is("]") {
                        self.need(",")?;
                    }
                }
                Ok(E::Array(v))
            }
            T::Id(w) if w == "true" || w == "false" => {
                self.i += 1;
                Ok(E::Bool(w == "true"))
            }
            T::Id(w) if w == "new" => {
                self.i += 1;
                let t = self.ty()?;
                self.need("(")?;
                Ok(E::New(t, self.args()?))
            }
            T::Id(w) => {
                if let Some(t) = Self::elementary(&w) {
                    self.i += 1;
                    self.need("(")?;
                    let e = self.expr()?;
                    self.need(")")?;
                    return Ok(E::Cast(t, Box::new(e)));
                }
                Ok(E::Id(self.id()?))
            }
            _ => self.wrong("expression"),
        }
    }
}

// ------------------------------------------------------------------ running
pub struct Contract {
    parts: BTreeMap<String, Part>,
    name: String,
}
impl Contract {
    pub fn parse(src: &str) -> Res<Contract> {
        let mut p = Parser { t: tokens(src)?, i: 0 };
        let (parts, name) = p.file()?;
        match name {
            Some(name) => Ok(Contract { parts, name }),
            None => bad("no contract"),
        }
    }
    /// The types of what a public function takes.
    pub fn takes(&self, name: &str) -> Option<Vec<Ty>> {
        let f = self.parts[&self.name].functions.iter().find(|f| f.name == name && f.public)?;
        Some(f.args.iter().map(|a| self.named(&self.name, &a.0)).collect::<Res<_>>().ok()?)
    }
    /// A type with the struct's full name.
    fn named(&self, inside: &str, t: &Ty) -> Res<Ty> {
        Ok(match t {
            Ty::Named(v) => {
                let (l, s) = match &v[..] {
                    [s] => (inside.to_string(), s),
                    [l, s] => (l.clone(), s),
                    _ => return bad(format!("type {v:?}")),
                };
                if !self.parts.get(&l).is_some_and(|p| p.structs.contains_key(s)) {
                    return bad(format!("type {v:?}"));
                }
                Ty::Named(vec![l, s.clone()])
            }
            Ty::Fixed(t, n) => Ty::Fixed(Box::new(self.named(inside, t)?), *n),
            Ty::Dyn(t) => Ty::Dyn(Box::new(self.named(inside, t)?)),
            t => t.clone(),
        })
    }
    pub fn fields(&self, t: &Ty) -> Res<Vec<(Ty, String)>> {
        let Ty::Named(v) = t else { return bad(format!("no struct: {t:?}")) };
        self.parts[&v[0]].structs[&v[1]].iter().map(|(t, n)| Ok((self.named(&v[0], t)?, n.clone()))).collect()
    }
}
/// An argument of a call from outside.
pub enum Arg {
    Word(BigUint),
    /// A struct or an array.
    Group(Vec<Arg>),
}
type V = (Ty, BigUint);
enum Flow {
    On,
    Break,
    Continue,
    Return,
}
struct Frame {
    part: String,
    vars: Vec<Vec<(String, Ty, BigUint)>>,
    outs: Vec<Ty>,
    result: Option<Vec<BigUint>>,
    unchecked: bool,
}
pub struct Evm<'a> {
    c: &'a Contract,
    known: &'a mut Known,
    mem: Vec<u8>,
    free: usize,
    returned: Vec<u8>,
    steps: u64,
}
const MOST: usize = 1 << 22;
impl<'a> Evm<'a> {
    pub fn new(c: &'a Contract, known: &'a mut Known) -> Evm<'a> {
        Evm { c, known, mem: vec![0; 0x80], free: 0x80, returned: vec![], steps: 0 }
    }
    /// Calls a public function that returns one word.
    pub fn call(&mut self, name: &str, args: &[Arg]) -> Res<BigUint> {
        let part = self.c.name.clone();
        let f = self.c.parts[&part].functions.iter().find(|f| f.name == name && f.public).cloned();
        let Some(f) = f else { return bad(format!("no function {name}")) };
        if f.args.len() != args.len() || f.outs.len() != 1 {
            return bad(format!("arguments of {name}"));
        }
        let mut v = vec![];
        for (a, (t, _)) in args.iter().zip(&f.args) {
            let t = self.c.named(&part, t)?;
            v.push(self.given(&t, a)?);
        }
        Ok(self.run(&part, &f, v)?.remove(0))
    }
    fn given(&mut self, t: &Ty, a: &Arg) -> Res<BigUint> {
        match (t, a) {
            (Ty::Named(_), Arg::Group(v)) => {
                let f = self.c.fields(t)?;
                if f.len() != v.len() {
                    return bad("argument");
                }
                let w = f.iter().zip(v).map(|(f, a)| self.given(&f.0, a)).collect::<Res<Vec<_>>>()?;
                self.place(&w)
            }
            (Ty::Fixed(t, n), Arg::Group(v)) if v.len() == *n => {
                let w = v.iter().map(|a| self.given(t, a)).collect::<Res<Vec<_>>>()?;
                self.place(&w)
            }
            (Ty::Dyn(t), Arg::Group(v)) => {
                let mut w = vec![small(v.len() as u64)];
                for a in v {
                    w.push(self.given(t, a)?);
                }
                self.place(&w)
            }
            (Ty::Uint(b), Arg::Word(x)) => {
                if x.bits() > *b as u64 {
                    return Err(Revert("argument out of range".into()));
                }
                Ok(x.clone())
            }
            _ => bad("argument"),
        }
    }
    // ---- memory
    fn grow(&mut self, to: usize) -> Res<()> {
        if to > MOST {
            return Err(Revert("out of gas".into()));
        }
        if self.mem.len() < to {
            self.mem.resize(to, 0);
        }
        Ok(())
    }
    fn at(x: &BigUint) -> Res<usize> {
        match x.bits() {
            0..=40 => Ok(x.to_string().parse().unwrap()),
            _ => Err(Revert("out of gas".into())),
        }
    }
    fn load(&mut self, at: &BigUint) -> Res<BigUint> {
        let a = Self::at(at)?;
        self.grow(a + 32)?;
        Ok(BigUint::from_bytes_be(&self.mem[a..a + 32]))
    }
    fn store(&mut self, at: &BigUint, x: &BigUint) -> Res<()> {
        let a = Self::at(at)?;
        self.grow(a + 32)?;
        self.mem[a..a + 32].copy_from_slice(&word(x));
        if a <= 0x40 && a + 32 > 0x40 {
            self.free = Self::at(&BigUint::from_bytes_be(&self.mem[0x40..0x60]))?;
        }
        Ok(())
    }
    fn place(&mut self, words: &[BigUint]) -> Res<BigUint> {
        let p = self.free;
        self.free += 32 * words.len();
        self.grow(self.free)?;
        let f = word(&small(self.free as u64));
        self.mem[0x40..0x60].copy_from_slice(&f);
        for (i, w) in words.iter().enumerate() {
            self.mem[p + 32 * i..p + 32 * i + 32].copy_from_slice(&word(w));
        }
        Ok(small(p as u64))
    }
    fn initial(&mut self, t: &Ty) -> Res<BigUint> {
        match t {
            Ty::Named(_) => {
                let w = self.c.fields(t)?.iter().map(|f| self.initial(&f.0)).collect::<Res<Vec<_>>>()?;
                self.place(&w)
            }
            Ty::Fixed(t, n) => {
                let w = (0..*n).map(|_| self.initial(t)).collect::<Res<Vec<_>>>()?;
                self.place(&w)
            }
            // the word that is always zero
            Ty::Dyn(_) => Ok(small(0x60)),
            _ => Ok(small(0)),
        }
    }
    // ---- functions
    fn run(&mut self, part: &str, f: &Fun, args: Vec<BigUint>) -> Res<Vec<BigUint>> {
        let mut vars = vec![];
        for ((t, n), x) in f.args.iter().zip(args) {
            vars.push((n.clone(), self.c.named(part, t)?, x));
        }
        let mut outs = vec![];
        for (t, n) in &f.outs {
            let t = self.c.named(part, t)?;
            let x = self.initial(&t)?;
            outs.push(t.clone());
            vars.push((n.clone(), t, x));
        }
        let k = f.args.len();
        let mut fr = Frame { part: part.into(), vars: vec![vars], outs, result: None, unchecked: false };
        self.block(&mut fr, &f.body)?;
        Ok(match fr.result {
            Some(r) => r,
            None => fr.vars[0][k..k + fr.outs.len()].iter().map(|v| v.2.clone()).collect(),
        })
    }
    fn block(&mut self, fr: &mut Frame, b: &[S]) -> Res<Flow> {
        let depth = fr.vars.len();
        fr.vars.push(vec![]);
        for s in b {
            match self.statement(fr, s)? {
                Flow::On => {}
                f => {
                    fr.vars.truncate(depth);
                    return Ok(f);
                }
            }
        }
        fr.vars.truncate(depth);
        Ok(Flow::On)
    }
    fn step(&mut self) -> Res<()> {
        self.steps += 1;
        if self.steps > 2_000_000 {
            return Err(Revert("out of gas".into()));
        }
        Ok(())
    }
    fn truth(&mut self, fr: &mut Frame, e: &E) -> Res<bool> {
        match self.eval(fr, e)? {
            (Ty::Bool, x) => Ok(x != small(0)),
            (t, _) => bad(format!("{t:?} as a condition")),
        }
    }
    fn statement(&mut self, fr: &mut Frame, s: &S) -> Res<Flow> {
        self.step()?;
        match s {
            S::Nothing => {}
            S::Block(b) => return self.block(fr, b),
            S::Unchecked(b) => {
                let was = std::mem::replace(&mut fr.unchecked, true);
                let f = self.block(fr, b);
                fr.unchecked = was;
                return f;
            }
            S::If(c, a, b) => {
                if self.truth(fr, c)? {
                    return self.block(fr, std::slice::from_ref(a));
                } else if let Some(b) = b {
                    return self.block(fr, std::slice::from_ref(b));
                }
            }
            S::DoWhile(b, c) => loop {
                match self.block(fr, std::slice::from_ref(b))? {
                    Flow::Break => break,
                    Flow::Return => return Ok(Flow::Return),
                    _ => {}
                }
                if !self.truth(fr, c)? {
                    break;
                }
            },
            S::For(init, c, post, body) => {
                let depth = fr.vars.len();
                fr.vars.push(vec![]);
                self.statement(fr, init)?;
                loop {
                    self.step()?;
                    if let Some(c) = c {
                        if !self.truth(fr, c)? {
                            break;
                        }
                    }
                    match self.block(fr, std::slice::from_ref(body))? {
                        Flow::Break => break,
                        Flow::Return => {
                            fr.vars.truncate(depth);
                            return Ok(Flow::Return);
                        }
                        _ => {}
                    }
                    if let Some(p) = post {
                        self.eval(fr, p)?;
                    }
                }
                fr.vars.truncate(depth);
            }
            S::Return(e) => {
                fr.result = match e {
                    None if fr.outs.is_empty() => Some(vec![]),
                    // the named ones
                    None => None,
                    Some(E::Tuple(v)) => {
                        if v.len() != fr.outs.len() {
                            return bad("number of returned values");
                        }
                        let mut r = vec![];
                        for (i, e) in v.iter().enumerate() {
                            let Some(e) = e else { return bad("returned value") };
                            let t = fr.outs[i].clone();
                            r.push(self.as_type(fr, e, &t)?);
                        }
                        Some(r)
                    }
                    Some(e) => {
                        if fr.outs.len() != 1 {
                            return unknown("returning a call's values");
                        }
                        let t = fr.outs[0].clone();
                        Some(vec![self.as_type(fr, e, &t)?])
                    }
                };
                return Ok(Flow::Return);
            }
            S::Expr(e) => {
                self.eval(fr, e)?;
            }
            S::Let(names, e) => {
                let mut new = vec![];
                match (&names[..], e) {
                    ([Some((t, n))], e) => {
                        let t = self.c.named(&fr.part, t)?;
                        let x = match e {
                            Some(e) => self.as_type(fr, e, &t)?,
                            None => self.initial(&t)?,
                        };
                        new.push((n.clone(), t, x));
                    }
                    (names, Some(e)) => {
                        let (Ty::Many(ts), x) = self.eval(fr, e)? else { return bad("values for several names") };
                        if ts.len() != names.len() {
                            return bad("values for several names");
                        }
                        for (i, (n, t)) in names.iter().zip(ts).enumerate() {
                            if let Some((want, n)) = n {
                                let x = self.load(&(&x + 32 * i))?;
                                if self.c.named(&fr.part, want)? != t {
                                    return bad("type of a value");
                                }
                                new.push((n.clone(), t, x));
                            }
                        }
                    }
                    _ => return bad("declaration"),
                }
                for v in new {
                    if fr.vars.last().unwrap().iter().any(|w| w.0 == v.0) {
                        return bad(format!("{} twice", v.0));
                    }
                    fr.vars.last_mut().unwrap().push(v);
                }
            }
            S::Asm(b) => {
                fr.vars.push(vec![]);
                let r = self.yul_block(fr, b);
                fr.vars.pop();
                r?;
            }
            S::Break => return Ok(Flow::Break),
            S::Continue => return Ok(Flow::Continue),
        }
        Ok(Flow::On)
    }
    /// An expression's value where this type is wanted.
    fn as_type(&mut self, fr: &mut Frame, e: &E, want: &Ty) -> Res<BigUint> {
        let (t, x) = self.eval(fr, e)?;
        let fits = match (&t, want, e) {
            (a, b, _) if a == b => true,
            // numbers take the type that is wanted, smaller ones widen
            (Ty::Uint(_), Ty::Uint(n), E::Num(..)) => x.bits() <= *n as u64,
            (Ty::Uint(a), Ty::Uint(b), _) => a <= b,
            _ => false,
        };
        if !fits {
            return bad(format!("{t:?} for {want:?}"));
        }
        Ok(x)
    }
    fn find<'f>(fr: &'f mut Frame, n: &str) -> Option<&'f mut (String, Ty, BigUint)> {
        fr.vars.iter_mut().rev().flat_map(|s| s.iter_mut().rev()).find(|v| v.0 == n)
    }
    fn lookup(&mut self, fr: &mut Frame, n: &str) -> Res<V> {
        if let Some(v) = Self::find(fr, n) {
            return Ok((v.1.clone(), v.2.clone()));
        }
        let part = fr.part.clone();
        self.constant(&part, n)
    }
    fn constant(&mut self, part: &str, n: &str) -> Res<V> {
        let c = self.c;
        if let Some((t, e)) = c.parts.get(part).and_then(|p| p.constants.get(n)) {
            let mut f = Frame { part: part.into(), vars: vec![vec![]], outs: vec![], result: None, unchecked: false };
            let t = c.named(part, t)?;
            let x = self.as_type(&mut f, e, &t)?;
            return Ok((t, x));
        }
        if c.parts.contains_key(n) {
            return Ok((Ty::Lib(n.into()), small(0)));
        }
        bad(format!("no name {n}"))
    }
    /// Where a member or an element is, and its type.
    fn place_of(&mut self, fr: &mut Frame, e: &E) -> Res<V> {
        match e {
            E::Member(b, m) => {
                let (t, p) = self.eval(fr, b)?;
                let f = self.c.fields(&t)?;
                match f.iter().position(|f| f.1 == *m) {
                    Some(i) => Ok((f[i].0.clone(), p + 32 * i)),
                    None => bad(format!("no member {m}")),
                }
            }
            E::Index(b, i) => {
                let (t, p) = self.eval(fr, b)?;
                let i = self.as_type(fr, i, &Ty::Uint(256))?;
                let (t, len, at) = match t {
                    Ty::Fixed(t, n) => (t, small(n as u64), p),
                    Ty::Dyn(t) => (t, self.load(&p)?, p + 32u8),
                    t => return bad(format!("index of {t:?}")),
                };
                if i >= len {
                    return Err(Revert("index out of range".into()));
                }
                Ok((*t, at + i * 32u8))
            }
            _ => bad("nothing to assign to"),
        }
    }
    fn assign(&mut self, fr: &mut Frame, e: &E, x: BigUint) -> Res<()> {
        if let E::Id(n) = e {
            return match Self::find(fr, n) {
                Some(v) => {
                    v.2 = x;
                    Ok(())
                }
                None => bad(format!("no name {n}")),
            };
        }
        let (_, p) = self.place_of(fr, e)?;
        self.store(&p, &x)
    }
    fn function(&self, part: &str, n: &str, args: usize) -> Option<Vec<&'a Fun>> {
        let c: &'a Contract = self.c;
        let v: Vec<&Fun> = c.parts.get(part)?.functions.iter().filter(|f| f.name == n && f.args.len() == args).collect();
        (!v.is_empty()).then_some(v)
    }
    fn invoke(&mut self, part: &str, fs: Vec<&'a Fun>, args: Vec<(V, bool)>) -> Res<V> {
        let c = self.c;
        for f in fs {
            let mut v = vec![];
            for (((t, x), literal), (want, _)) in args.iter().zip(&f.args) {
                let want = c.named(part, want)?;
                let fits = match (t, &want) {
                    (Ty::Uint(a), Ty::Uint(b)) => a <= b || (*literal && x.bits() <= *b as u64),
                    (a, b) => a == b,
                };
                if fits {
                    v.push(x.clone());
                }
            }
            if v.len() == args.len() {
                let r = self.run(part, f, v)?;
                let t = f.outs.iter().map(|o| c.named(part, &o.0)).collect::<Res<Vec<_>>>()?;
                return Ok(match r.len() {
                    1 => (t[0].clone(), r[0].clone()),
                    _ => (Ty::Many(t), self.place(&r)?),
                });
            }
        }
        bad("types of arguments")
    }
    fn arithmetic(&self, fr: &Frame, op: &str, bits: u32, a: &BigUint, b: &BigUint) -> Res<BigUint> {
        let m = small(1) << bits as usize;
        let over = || Err(Revert(format!("arithmetic: {op}")));
        let x = match op {
            "+" => a + b,
            "-" if a >= b => a - b,
            "-" if fr.unchecked => a + &m - b,
            "-" => return over(),
            "*" => a * b,
            "/" | "%" if *b == small(0) => return over(),
            "/" => a / b,
            "%" => a % b,
            "**" => {
                let mut x = small(1);
                let k = if b.bits() > 16 { 1 << 16 } else { b.to_string().parse::<u64>().unwrap() };
                for _ in 0..k {
                    x *= a;
                    if x >= m {
                        if !fr.unchecked {
                            return over();
                        }
                        x %= &m;
                    }
                }
                x
            }
            "&" => a & b,
            "|" => a | b,
            "^" => a ^ b,
            "<<" if b.bits() > 16 => small(0),
            "<<" => (a << b.to_string().parse::<usize>().unwrap()) % &m,
            ">>" if b.bits() > 16 => small(0),
            ">>" => a >> b.to_string().parse::<usize>().unwrap(),
            _ => return unknown(format!("operator {op}")),
        };
        if x >= m {
            if !fr.unchecked {
                return over();
            }
            return Ok(x % m);
        }
        Ok(x)
    }
    fn eval(&mut self, fr: &mut Frame, e: &E) -> Res<V> {
        self.step()?;
        let b = |x: bool| Ok((Ty::Bool, small(x as u64)));
        match e {
            E::Num(_, true) => bad("a number that reads like an address"),
            E::Num(x, _) => Ok((Ty::Uint(256), x.clone())),
            E::Bool(x) => b(*x),
            E::Str => unknown("a string"),
            E::Id(n) => self.lookup(fr, n),
            E::Member(x, m) => {
                let (t, p) = self.eval(fr, x)?;
                match (&t, m.as_str()) {
                    (Ty::Dyn(_), "length") => Ok((Ty::Uint(256), self.load(&p)?)),
                    (Ty::Fixed(_, n), "length") => Ok((Ty::Uint(256), small(*n as u64))),
                    (Ty::Lib(l), m) => {
                        let l = l.clone();
                        self.constant(&l, m)
                    }
                    _ => {
                        let (t, p) = self.place_of(fr, e)?;
                        Ok((t, self.load(&p)?))
                    }
                }
            }
            E::Index(..) => {
                let (t, p) = self.place_of(fr, e)?;
                Ok((t, self.load(&p)?))
            }
            E::Cast(t, x) => {
                let (from, v) = match &**x {
                    E::Num(x, _) => (Ty::Uint(256), x.clone()),
                    x => self.eval(fr, x)?,
                };
                match (t, from) {
                    (Ty::Uint(n), Ty::Uint(_)) => Ok((t.clone(), v % (small(1) << *n as usize))),
                    (Ty::Uint(256), Ty::Bytes32) | (Ty::Bytes32, Ty::Uint(256)) => Ok((t.clone(), v)),
                    (a, b) if *a == b => Ok((b, v)),
                    (a, b) => bad(format!("{b:?} as {a:?}")),
                }
            }
            E::New(t, args) => {
                let Ty::Dyn(el) = self.c.named(&fr.part, t)? else { return unknown("new") };
                let [n] = &args[..] else { return bad("new array without its length") };
                let n = Self::at(&self.as_type(fr, n, &Ty::Uint(256))?)?;
                self.grow(self.free + 32 * n.min(MOST))?;
                let mut w = vec![small(n as u64)];
                for _ in 0..n {
                    w.push(self.initial(&el)?);
                }
                Ok((Ty::Dyn(el), self.place(&w)?))
            }
            E::Array(v) => {
                let mut w = vec![];
                for e in v {
                    let mut x = self.eval(fr, e)?;
                    if let E::Num(n, _) = e {
                        // the smallest type that holds it
                        x.0 = Ty::Uint((n.bits().max(1) as u32).div_ceil(8) * 8);
                    }
                    w.push(x);
                }
                let Some((mut t, _)) = w.first().cloned() else { return bad("empty array") };
                for x in &w {
                    t = match (t, &x.0) {
                        (Ty::Uint(a), Ty::Uint(b)) => Ty::Uint(a.max(*b)),
                        (a, b) if a == *b => a,
                        _ => return bad("array of several types"),
                    };
                }
                let words: Vec<BigUint> = w.into_iter().map(|x| x.1).collect();
                Ok((Ty::Fixed(Box::new(t), words.len()), self.place(&words)?))
            }
            E::Tuple(v) => {
                let (mut t, mut w) = (vec![], vec![]);
                for e in v {
                    let Some(e) = e else { return bad("expression") };
                    let x = self.eval(fr, e)?;
                    t.push(x.0);
                    w.push(x.1);
                }
                Ok((Ty::Many(t), self.place(&w)?))
            }
            E::Cond(c, x, y) => {
                let e = if self.truth(fr, c)? { x } else { y };
                self.eval(fr, e)
            }
            E::Un("!", x) => {
                let x = self.truth(fr, x)?;
                b(!x)
            }
            E::Un(op @ ("++" | "--"), x) => {
                self.eval(fr, &E::Set(&op[..1], x.clone(), Box::new(E::Num(small(1), false))))
            }
            E::Un("~", x) => match self.eval(fr, x)? {
                (Ty::Uint(n), x) => Ok((Ty::Uint(n), (small(1) << n as usize) - 1u8 - x)),
                _ => bad("operator ~"),
            },
            E::Un(op, _) => unknown(format!("operator {op}")),
            E::Post(op, x) => {
                let v = self.eval(fr, x)?;
                self.eval(fr, &E::Set(op, x.clone(), Box::new(E::Num(small(1), false))))?;
                Ok(v)
            }
            E::Bin("&&", x, y) => {
                let v = self.truth(fr, x)? && self.truth(fr, y)?;
                b(v)
            }
            E::Bin("||", x, y) => {
                let v = self.truth(fr, x)? || self.truth(fr, y)?;
                b(v)
            }
            E::Bin(op, x, y) => {
                let (a, c) = (self.eval(fr, x)?, self.eval(fr, y)?);
                let lit = |e: &E| matches!(e, E::Num(..));
                let n = match (&a.0, &c.0) {
                    (Ty::Uint(m), Ty::Uint(_)) if lit(y) && !lit(x) => *m,
                    (Ty::Uint(_), Ty::Uint(m)) if lit(x) && !lit(y) => *m,
                    (Ty::Uint(m), Ty::Uint(n)) => *m.max(n),
                    (a, b) if a == b && matches!(a, Ty::Bool | Ty::Bytes32 | Ty::Address) => 0,
                    (a, b) => return bad(format!("{a:?} {op} {b:?}")),
                };
                match *op {
                    "==" => b(a.1 == c.1),
                    "!=" => b(a.1 != c.1),
                    "<" => b(a.1 < c.1),
                    ">" => b(a.1 > c.1),
                    "<=" => b(a.1 <= c.1),
                    ">=" => b(a.1 >= c.1),
                    _ if n == 0 => unknown(format!("operator {op}")),
                    _ => Ok((Ty::Uint(n), self.arithmetic(fr, op, n, &a.1, &c.1)?)),
                }
            }
            E::Set(op, to, x) => {
                if let E::Tuple(to) = &**to {
                    let (Ty::Many(ts), p) = self.eval(fr, x)? else { return bad("values for several places") };
                    if ts.len() != to.len() {
                        return bad("values for several places");
                    }
                    for (i, e) in to.iter().enumerate() {
                        if let Some(e) = e {
                            let x = self.load(&(&p + 32 * i))?;
                            if self.eval(fr, e)?.0 != ts[i] {
                                return bad("type of a value");
                            }
                            self.assign(fr, e, x)?;
                        }
                    }
                    return Ok((Ty::Many(vec![]), small(0)));
                }
                let (t, old) = match &**to {
                    E::Id(n) => {
                        if Self::find(fr, n).is_none() {
                            return bad(format!("nothing to assign to: {n}"));
                        }
                        self.lookup(fr, n)?
                    }
                    to => {
                        let (t, p) = self.place_of(fr, to)?;
                        (t, self.load(&p)?)
                    }
                };
                let mut x = self.as_type(fr, x, &t)?;
                if !op.is_empty() {
                    let Ty::Uint(n) = t else { return bad(format!("operator {op}")) };
                    x = self.arithmetic(fr, op, n, &old, &x)?;
                }
                self.assign(fr, to, x.clone())?;
                Ok((t, x))
            }
            E::Named(f, v) => {
                let (E::Id(_) | E::Member(..)) = &**f else { return bad("call") };
                let Some(t) = self.struct_type(fr, f) else { return unknown("named arguments") };
                let mut args = vec![];
                for (_, n) in self.c.fields(&t)? {
                    match v.iter().find(|x| x.0 == n) {
                        Some(x) => args.push(x.1.clone()),
                        None => return bad(format!("no value for {n}")),
                    }
                }
                self.construct(fr, t, &args)
            }
            E::Call(f, args) => self.call_expr(fr, f, args),
        }
    }
    fn struct_type(&self, fr: &Frame, f: &E) -> Option<Ty> {
        let v = match f {
            E::Id(n) => vec![n.clone()],
            E::Member(l, n) => match &**l {
                E::Id(l) => vec![l.clone(), n.clone()],
                _ => return None,
            },
            _ => return None,
        };
        self.c.named(&fr.part, &Ty::Named(v)).ok()
    }
    fn construct(&mut self, fr: &mut Frame, t: Ty, args: &[E]) -> Res<V> {
        let f = self.c.fields(&t)?;
        if f.len() != args.len() {
            return bad(format!("{} values for {t:?}", args.len()));
        }
        let mut w = vec![];
        for (f, a) in f.iter().zip(args) {
            w.push(self.as_type(fr, a, &f.0)?);
        }
        Ok((t, self.place(&w)?))
    }
    fn call_expr(&mut self, fr: &mut Frame, f: &E, args: &[E]) -> Res<V> {
        if let E::Id(n) = f {
            match (n.as_str(), args) {
                ("require", [c] | [c, _]) => {
                    return match self.truth(fr, c)? {
                        true => Ok((Ty::Many(vec![]), small(0))),
                        false => Err(Revert("require".into())),
                    }
                }
                ("assert", [c]) => {
                    return match self.truth(fr, c)? {
                        true => Ok((Ty::Many(vec![]), small(0))),
                        false => Err(Revert("assert".into())),
                    }
                }
                ("revert", _) => return Err(Revert("revert".into())),
                ("addmod" | "mulmod", [a, b, m]) => {
                    let t = Ty::Uint(256);
                    let (a, b, m) = (self.as_type(fr, a, &t)?, self.as_type(fr, b, &t)?, self.as_type(fr, m, &t)?);
                    if m == small(0) {
                        return Err(Revert("arithmetic".into()));
                    }
                    return Ok((t, if n == "addmod" { (a + b) % m } else { a * b % m }));
                }
                ("gasleft", []) => return Ok((Ty::Uint(256), small(1 << 40))),
                ("type", _) => return unknown("type"),
                _ => {}
            }
        }
        if let Some(t) = self.struct_type(fr, f) {
            return self.construct(fr, t, args);
        }
        let mut bound = None;
        let (part, name) = match f {
            E::Id(n) => (fr.part.clone(), n.clone()),
            E::Member(x, n) => match self.eval(fr, x)? {
                (Ty::Lib(l), _) => (l, n.clone()),
                v @ (Ty::Named(_), _) => {
                    let Ty::Named(p) = &v.0 else { unreachable!() };
                    let l = p[0].clone();
                    bound = Some(v);
                    (l, n.clone())
                }
                (t, _) => return unknown(format!("{n} of {t:?}")),
            },
            _ => return unknown("call"),
        };
        let mut v: Vec<(V, bool)> = bound.into_iter().map(|v| (v, false)).collect();
        for a in args {
            v.push((self.eval(fr, a)?, matches!(a, E::Num(..))));
        }
        match self.function(&part, &name, v.len()) {
            Some(fs) => self.invoke(&part, fs, v),
            None => bad(format!("no function {name} of {} arguments", v.len())),
        }
    }
    // ---- assembly
    fn yul_block(&mut self, fr: &mut Frame, b: &[Y]) -> Res<Flow> {
        fr.vars.push(vec![]);
        let mut r = Ok(Flow::On);
        for y in b {
            r = self.yul(fr, y);
            if !matches!(r, Ok(Flow::On)) {
                break;
            }
        }
        fr.vars.pop();
        r
    }
    fn yul(&mut self, fr: &mut Frame, y: &Y) -> Res<Flow> {
        self.step()?;
        match y {
            Y::Block(b) => return self.yul_block(fr, b),
            Y::Let(n, e) => {
                let x = match e {
                    Some(e) => self.yul_one(fr, e)?,
                    None => small(0),
                };
                let [n] = &n[..] else { return unknown("several names") };
                fr.vars.last_mut().unwrap().push((n.clone(), Ty::Uint(256), x));
            }
            Y::Set(n, e) => {
                let x = self.yul_one(fr, e)?;
                let [n] = &n[..] else { return unknown("several names") };
                match Self::find(fr, n) {
                    Some(v) => v.2 = x,
                    None => return bad(format!("no name {n}")),
                }
            }
            Y::If(c, b) => {
                if self.yul_one(fr, c)? != small(0) {
                    return self.yul_block(fr, b);
                }
            }
            Y::Switch(c, cases, other) => {
                let x = self.yul_one(fr, c)?;
                if let Some((_, b)) = cases.iter().find(|k| k.0 == x) {
                    return self.yul_block(fr, b);
                } else if let Some(b) = other {
                    return self.yul_block(fr, b);
                }
            }
            Y::For(a, c, p, b) => {
                fr.vars.push(vec![]);
                for y in a {
                    self.yul(fr, y)?;
                }
                while self.yul_one(fr, c)? != small(0) {
                    self.step()?;
                    if matches!(self.yul_block(fr, b)?, Flow::Break) {
                        break;
                    }
                    self.yul_block(fr, p)?;
                }
                fr.vars.pop();
            }
            Y::Expr(e) => {
                if self.yul_value(fr, e)?.is_some() {
                    return bad("a value nobody takes");
                }
            }
            Y::Break => return Ok(Flow::Break),
            Y::Continue => return Ok(Flow::Continue),
        }
        Ok(Flow::On)
    }
    fn yul_one(&mut self, fr: &mut Frame, e: &YE) -> Res<BigUint> {
        match self.yul_value(fr, e)? {
            Some(x) => Ok(x),
            None => bad("no value"),
        }
    }
    fn yul_value(&mut self, fr: &mut Frame, e: &YE) -> Res<Option<BigUint>> {
        self.step()?;
        let (f, args) = match e {
            YE::Num(x) => return Ok(Some(x.clone())),
            YE::Id(n) => {
                return match Self::find(fr, n) {
                    Some(v) => Ok(Some(v.2.clone())),
                    None => match self.lookup(fr, n) {
                        Ok((Ty::Uint(_), x)) => Ok(Some(x)),
                        _ => bad(format!("no name {n}")),
                    },
                }
            }
            YE::Call(f, args) => (f.as_str(), args),
        };
        let mut a = vec![];
        // from the last to the first
        for x in args.iter().rev() {
            a.push(self.yul_one(fr, x)?);
        }
        a.reverse();
        let need = match f {
            "gas" | "returndatasize" | "invalid" | "callvalue" | "msize" => 0,
            "iszero" | "not" | "mload" | "pop" => 1,
            "add" | "sub" | "mul" | "div" | "mod" | "lt" | "gt" | "eq" | "and" | "or" | "xor" | "shl" | "shr" | "mstore"
            | "revert" => 2,
            "addmod" | "mulmod" => 3,
            "staticcall" => 6,
            _ => return unknown(format!("assembly {f}")),
        };
        if a.len() != need {
            return bad(format!("{} arguments of {f}", a.len()));
        }
        let m = modulus();
        let bit = |b: bool| small(b as u64);
        let rem = |x: BigUint, d: &BigUint| if *d == small(0) { small(0) } else { x % d };
        Ok(Some(match f {
            "gas" => small(1 << 40),
            "returndatasize" => small(self.returned.len() as u64),
            "callvalue" => small(0),
            "msize" => small(self.mem.len() as u64),
            "invalid" => return Err(Revert("invalid".into())),
            "revert" => return Err(Revert("revert".into())),
            "iszero" => bit(a[0] == small(0)),
            "not" => m - 1u8 - &a[0],
            "mload" => self.load(&a[0])?,
            "mstore" => {
                self.store(&a[0], &a[1])?;
                return Ok(None);
            }
            "pop" => return Ok(None),
            "add" => (&a[0] + &a[1]) % m,
            "sub" => (&a[0] + &m - &a[1]) % &m,
            "mul" => (&a[0] * &a[1]) % m,
            "div" if a[1] == small(0) => small(0),
            "div" => &a[0] / &a[1],
            "mod" => rem(a[0].clone(), &a[1]),
            "addmod" => rem(&a[0] + &a[1], &a[2]),
            "mulmod" => rem(&a[0] * &a[1], &a[2]),
            "lt" => bit(a[0] < a[1]),
            "gt" => bit(a[0] > a[1]),
            "eq" => bit(a[0] == a[1]),
            "and" => &a[0] & &a[1],
            "or" => &a[0] | &a[1],
            "xor" => &a[0] ^ &a[1],
            "shl" | "shr" if a[0] >= small(256) => small(0),
            "shl" => (&a[1] << Self::at(&a[0])?) % m,
            "shr" => &a[1] >> Self::at(&a[0])?,
            _ => {
                let (p, n, o, k) = (Self::at(&a[2])?, Self::at(&a[3])?, Self::at(&a[4])?, Self::at(&a[5])?);
                self.grow(p + n)?;
                self.grow(o + k)?;
                let input = self.mem[p..p + n].to_vec();
                // given too little gas, they fail
                let cost = match a[1].to_string().as_str() {
                    "6" => 150,
                    "7" => 6000,
                    "8" => 45000 + 34000 * (n as u64 / 192),
                    _ => 0,
                };
                let got = if a[0] < small(cost) { None } else { self.known.call(&a[1], &input) };
                let ok = got.is_some();
                self.returned = got.unwrap_or_default();
                let k = k.min(self.returned.len());
                let out = self.returned[..k].to_vec();
                self.mem[o..o + k].copy_from_slice(&out);
                bit(ok)
            }
        }))
    }
}
