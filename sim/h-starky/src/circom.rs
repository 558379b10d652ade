//! An interpreter for the part of circom that the verifier circuits and their library use. It evaluates a circuit on given inputs, checks every
//! constraint, and refuses programs a circom compiler would refuse: undeclared names, wrong shapes, signals assigned twice or never, constraints
//! that are not quadratic.
use num_bigint::BigUint;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::sync::Arc;

/// Prime field elements.
pub trait Fld: Copy + PartialEq + std::fmt::Debug + 'static {
    fn modulus() -> &'static BigUint;
    fn half() -> &'static BigUint;
    fn small(x: u64) -> Self;
    fn of(x: &BigUint) -> Self;
    fn int(self) -> BigUint;
    fn add(self, o: Self) -> Self;
    fn sub(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
    fn inv(self) -> Option<Self>;
}

const SMALL: u64 = 1 << 61;
/// A number; small ones are kept as they are.
#[derive(Clone, Copy, Debug)]
pub enum N<F> {
    S(u64),
    B(F),
}
use N::{B, S};
impl<F: Fld> N<F> {
    pub fn of(x: &BigUint) -> Self {
        match u64::try_from(x) {
            Ok(v) if v < SMALL => S(v),
            _ => B(F::of(x)),
        }
    }
    pub fn f(self) -> F {
        match self {
            S(v) => F::small(v),
            B(f) => f,
        }
    }
    pub fn int(self) -> BigUint {
        match self {
            S(v) => BigUint::from(v),
            B(f) => f.int(),
        }
    }
    pub fn index(self) -> Option<usize> {
        match self {
            S(v) => Some(v as usize),
            B(f) => u32::try_from(f.int()).ok().map(|x| x as usize),
        }
    }
    fn truth(self) -> bool {
        match self {
            S(v) => v != 0,
            B(f) => f != F::small(0),
        }
    }
    pub fn same(self, o: Self) -> bool {
        match (self, o) {
            (S(a), S(b)) => a == b,
            (a, b) => a.f() == b.f(),
        }
    }
    fn signed(self) -> (bool, BigUint) {
        let i = self.int();
        if i > *F::half() {
            (true, F::modulus() - i)
        } else {
            (false, i)
        }
    }
    fn cmp(self, o: Self) -> Ordering {
        if let (S(a), S(b)) = (self, o) {
            return a.cmp(&b);
        }
        match (self.signed(), o.signed()) {
            ((false, a), (false, b)) => a.cmp(&b),
            ((true, a), (true, b)) => b.cmp(&a),
            ((true, _), _) => Ordering::Less,
            _ => Ordering::Greater,
        }
    }
}

/// A number and its degree in the signals: 0, 1, 2 (one product) or 3 (not quadratic).
#[derive(Clone, Copy, Debug)]
pub struct T<F> {
    pub n: N<F>,
    pub d: u8,
}
#[derive(Clone, Debug)]
pub struct Arr<F> {
    pub dims: Vec<usize>,
    pub data: Vec<T<F>>,
}
#[derive(Clone, Debug)]
pub enum Val<F> {
    One(T<F>),
    Many(Arc<Arr<F>>),
}
impl<F: Fld> Val<F> {
    fn flat(&self) -> (&[usize], &[T<F>]) {
        match self {
            Val::One(t) => (&[], std::slice::from_ref(t)),
            Val::Many(a) => (&a.dims, &a.data),
        }
    }
    fn make(dims: Vec<usize>, data: Vec<T<F>>) -> Self {
        if dims.is_empty() {
            Val::One(data[0])
        } else {
            Val::Many(Arc::new(Arr { dims, data }))
        }
    }
}

pub enum Stop {
    /// the inputs do not satisfy the circuit
    Reject(String),
    /// this is not a circuit
    Bad(String),
}
pub type Res<X> = Result<X, Stop>;
fn bad<X>(s: impl Into<String>) -> Res<X> {
    Err(Stop::Bad(s.into()))
}

// ------------------------------------------------------------------ syntax
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Add, Sub, Mul, Div, IDiv, Mod, Pow, Shl, Shr, And, Or, Xor, Lt, Le, Gt, Ge, Eq, Ne, LAnd, LOr,
}
enum Ex<F> {
    Num(N<F>),
    Var(usize, Vec<Ex<F>>),
    Sig(usize, Vec<Ex<F>>),
    Port(usize, Vec<Ex<F>>, String, Vec<Ex<F>>),
    Call(String, Vec<Ex<F>>),
    Anon(String, Vec<Ex<F>>, Vec<Ex<F>>),
    List(Vec<Ex<F>>),
    Neg(Box<Ex<F>>),
    Not(Box<Ex<F>>),
    Comp(Box<Ex<F>>),
    Bin(Op, Box<Ex<F>>, Box<Ex<F>>),
    If(Box<Ex<F>>, Box<Ex<F>>, Box<Ex<F>>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    In,
    Out,
    Mid,
}
enum St<F> {
    Var(usize, Vec<Ex<F>>, Option<Ex<F>>),
    Sig(usize, Kind, String, Vec<Ex<F>>, Option<(bool, Ex<F>)>),
    Comp(usize, Vec<Ex<F>>),
    New(usize, Vec<Ex<F>>, String, Vec<Ex<F>>),
    Set(usize, Vec<Ex<F>>, Option<Op>, Ex<F>),
    /// (constrained, value)
    Drive(Ex<F>, bool, Ex<F>),
    /// a component's outputs in their order
    Outputs(Vec<Option<Ex<F>>>, bool, Ex<F>),
    Equal(Ex<F>, Ex<F>),
    If(Ex<F>, Vec<St<F>>, Vec<St<F>>),
    While(Ex<F>, Vec<St<F>>),
    Block(Vec<St<F>>),
    Ret(Ex<F>),
    Assert(Ex<F>),
    Log(Vec<Ex<F>>),
}
pub struct Def<F> {
    name: String,
    params: Vec<usize>,
    slots: usize,
    body: Vec<St<F>>,
    template: bool,
    /// number of top-level statements up to the last input declaration
    head: usize,
}
/// A template that is not given as text.
pub struct Builtin<F> {
    /// names and shapes of the inputs, and name of the one output, for these parameters
    pub ports: fn(&[usize]) -> Option<(Vec<(&'static str, Vec<usize>)>, &'static str, Vec<usize>)>,
    pub run: fn(&[usize], &[Vec<N<F>>]) -> Result<Vec<N<F>>, String>,
}
pub struct Program<F> {
    defs: HashMap<String, Arc<Def<F>>>,
    builtins: HashMap<&'static str, Arc<Builtin<F>>>,
    pub main: Option<(String, Vec<u64>, Vec<String>)>,
    /// the files it has been read from
    pub files: Vec<String>,
}
impl<F> Clone for Program<F> {
    fn clone(&self) -> Self {
        Program { defs: self.defs.clone(), builtins: self.builtins.clone(), main: self.main.clone(), files: self.files.clone() }
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Id(String),
    Num(BigUint),
    Str,
    Sym(&'static str),
    End,
}
const SYMS: &[&str] = &[
    "<==", "==>", "===", "<--", "-->", "**=", "<<=", ">>=", "\\=", "%=", "|=", "&=", "^=", "**", "++", "--", "+=", "-=", "*=", "/=",
    "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "+", "-", "*", "/", "\\", "%",
    "<", ">", "=", "!", "~", "&", "|", "^", "(", ")", "[", "]", "{", "}", ",", ";", ".", "?", ":",
];
fn lex(text: &str) -> Result<Vec<(Tok, usize)>, String> {
    let b = text.as_bytes();
    let (mut i, mut line) = (0, 1);
    let mut out = vec![];
    'next: while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            line += 1;
        }
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if b[i..].starts_with(b"//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if b[i..].starts_with(b"/*") {
            let Some(n) = text[i..].find("*/") else { return Err("unclosed comment".into()) };
            line += text[i..i + n].matches('\n').count();
            i += n + 2;
            continue;
        }
        if c == b'"' {
            let Some(n) = text[i + 1..].find('"') else { return Err("unclosed string".into()) };
            out.push((Tok::Str, line));
            i += n + 2;
            continue;
        }
        if c.is_ascii_digit() {
            let hex = b[i..].starts_with(b"0x");
            let from = if hex { i + 2 } else { i };
            let mut j = from;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                j += 1;
            }
            let Some(n) = BigUint::parse_bytes(&b[from..j], if hex { 16 } else { 10 }) else {
                return Err(format!("line {line}: not a number: {}", &text[i..j]));
            };
            out.push((Tok::Num(n), line));
            i = j;
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let mut j = i;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'$') {
                j += 1;
            }
            out.push((Tok::Id(text[i..j].to_string()), line));
            i = j;
            continue;
        }
        for s in SYMS {
            if b[i..].starts_with(s.as_bytes()) {
                out.push((Tok::Sym(s), line));
                i += s.len();
                continue 'next;
            }
        }
        return Err(format!("line {line}: unexpected character {:?}", c as char));
    }
    out.push((Tok::End, line));
    Ok(out)
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Var,
    Sig,
    Comp,
}
struct Parser<'a, F> {
    t: &'a [(Tok, usize)],
    i: usize,
    scopes: Vec<HashMap<String, (What, usize)>>,
    slots: usize,
    template: bool,
    p: Program<F>,
    used: Vec<(String, usize, bool)>,
}
type Pr<X> = Result<X, String>;
impl<F: Fld> Parser<'_, F> {
    fn peek(&self) -> &Tok {
        &self.t[self.i].0
    }
    fn err<X>(&self, what: impl std::fmt::Display) -> Pr<X> {
        Err(format!("line {}: {what}, at {:?}", self.t[self.i].1, self.peek()))
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].0.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Sym(x) if *x == s)
    }
    fn eat(&mut self, s: &str) -> bool {
        let y = self.is(s);
        if y {
            self.i += 1;
        }
        y
    }
    fn need(&mut self, s: &str) -> Pr<()> {
        if self.eat(s) {
            Ok(())
        } else {
            self.err(format!("expected {s}"))
        }
    }
    fn word(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x == s)
    }
    fn eat_word(&mut self, s: &str) -> bool {
        let y = self.word(s);
        if y {
            self.i += 1;
        }
        y
    }
    fn id(&mut self) -> Pr<String> {
        match self.next() {
            Tok::Id(s) => Ok(s),
            _ => {
                self.i -= 1;
                self.err("expected a name")
            }
        }
    }
    fn declare(&mut self, name: String, what: What) -> Pr<usize> {
        let slot = self.slots;
        self.slots += 1;
        if self.scopes.last_mut().unwrap().insert(name.clone(), (what, slot)).is_some() {
            return self.err(format!("{name} is declared twice"));
        }
        Ok(slot)
    }
    fn find(&self, name: &str) -> Option<(What, usize)> {
        self.scopes.iter().rev().find_map(|s| s.get(name).copied())
    }
    fn args(&mut self, close: &'static str) -> Pr<Vec<Ex<F>>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.expr()?);
            if self.eat(close) {
                return Ok(v);
            }
            self.need(",")?;
        }
    }
    fn indices(&mut self) -> Pr<Vec<Ex<F>>> {
        let mut v = vec![];
        while self.eat("[") {
            v.push(self.expr()?);
            self.need("]")?;
        }
        Ok(v)
    }
    fn place(&mut self, name: String) -> Pr<Ex<F>> {
        let Some((what, slot)) = self.find(&name) else { return self.err(format!("{name} is not declared")) };
        let ix = self.indices()?;
        Ok(match what {
            What::Var => Ex::Var(slot, ix),
            What::Sig => Ex::Sig(slot, ix),
            What::Comp if self.eat(".") => {
                let port = self.id()?;
                Ex::Port(slot, ix, port, self.indices()?)
            }
            What::Comp => Ex::Port(slot, ix, String::new(), vec![]),
        })
    }
    fn primary(&mut self) -> Pr<Ex<F>> {
        if self.eat("(") {
            let e = self.expr()?;
            self.need(")")?;
            return Ok(e);
        }
        if self.eat("[") {
            return Ok(Ex::List(self.args("]")?));
        }
        match self.next() {
            Tok::Num(n) => Ok(Ex::Num(N::of(&n))),
            Tok::Id(name) => {
                if self.eat("(") {
                    let args = self.args(")")?;
                    let line = self.t[self.i].1;
                    if self.eat("(") {
                        if !self.template {
                            return self.err("component in a function");
                        }
                        let ins = self.args(")")?;
                        self.used.push((name.clone(), line, true));
                        return Ok(Ex::Anon(name, args, ins));
                    }
                    self.used.push((name.clone(), line, false));
                    return Ok(Ex::Call(name, args));
                }
                self.place(name)
            }
            _ => {
                self.i -= 1;
                self.err("expected an expression")
            }
        }
    }
    fn unary(&mut self) -> Pr<Ex<F>> {
        if self.eat("-") {
            return Ok(Ex::Neg(Box::new(self.unary()?)));
        }
        if self.eat("!") {
            return Ok(Ex::Not(Box::new(self.unary()?)));
        }
        if self.eat("~") {
            return Ok(Ex::Comp(Box::new(self.unary()?)));
        }
        self.primary()
    }
    fn binary(&mut self, level: usize) -> Pr<Ex<F>> {
        const LEVELS: &[&[(&str, Op)]] = &[
            &[("||", Op::LOr)],
            &[("&&", Op::LAnd)],
            &[("==", Op::Eq), ("!=", Op::Ne), ("<=", Op::Le), (">=", Op::Ge), ("<", Op::Lt), (">", Op::Gt)],
            &[("|", Op::Or)],
            &[("^", Op::Xor)],
            &[("&", Op::And)],
            &[("<<", Op::Shl), (">>", Op::Shr)],
            &[("+", Op::Add), ("-", Op::Sub)],
            &[("*", Op::Mul), ("/", Op::Div), ("\\", Op::IDiv), ("%", Op::Mod)],
            &[("**", Op::Pow)],
        ];
        if level == LEVELS.len() {
            return self.unary();
        }
        let mut l = self.binary(level + 1)?;
        'more: loop {
            for (s, op) in LEVELS[level] {
                if self.eat(s) {
                    let r = self.binary(level + 1)?;
                    l = Ex::Bin(*op, Box::new(l), Box::new(r));
                    continue 'more;
                }
            }
            return Ok(l);
        }
    }
    fn expr(&mut self) -> Pr<Ex<F>> {
        let c = self.binary(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.need(":")?;
            let b = self.expr()?;
            return Ok(Ex::If(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn block(&mut self) -> Pr<Vec<St<F>>> {
        self.scopes.push(HashMap::new());
        let mut v = vec![];
        if self.eat("{") {
            while !self.eat("}") {
                if *self.peek() == Tok::End {
                    return self.err("unclosed block");
                }
                self.statement(&mut v)?;
            }
        } else {
            self.statement(&mut v)?;
        }
        self.scopes.pop();
        Ok(v)
    }
    fn instance(&mut self) -> Pr<(String, Vec<Ex<F>>)> {
        self.eat_word("parallel");
        let name = self.id()?;
        self.need("(")?;
        let line = self.t[self.i].1;
        self.used.push((name.clone(), line, true));
        Ok((name, self.args(")")?))
    }
    /// whether a parenthesised list follows that is assigned to
    fn tuple(&self) -> bool {
        if !self.is("(") {
            return false;
        }
        let (mut deep, mut comma) = (0, false);
        for (i, (t, _)) in self.t[self.i..].iter().enumerate() {
            match t {
                Tok::Sym("(" | "[") => deep += 1,
                Tok::Sym("," ) if deep == 1 => comma = true,
                Tok::Sym(")" | "]") => {
                    deep -= 1;
                    if deep == 0 {
                        return comma && matches!(self.t[self.i + i + 1].0, Tok::Sym("<==" | "<--"));
                    }
                }
                Tok::End => return false,
                _ => (),
            }
        }
        false
    }
    /// a statement without its semicolon
    fn simple(&mut self, out: &mut Vec<St<F>>) -> Pr<()> {
        if self.eat_word("var") {
            loop {
                let name = self.id()?;
                let dims = self.indices()?;
                let init = if self.eat("=") { Some(self.expr()?) } else { None };
                let slot = self.declare(name, What::Var)?;
                out.push(St::Var(slot, dims, init));
                if !self.eat(",") {
                    return Ok(());
                }
            }
        }
        if self.word("signal") || self.word("component") {
            if !self.template {
                return self.err("signal or component in a function");
            }
            if self.eat_word("signal") {
                let kind = if self.eat_word("input") {
                    Kind::In
                } else if self.eat_word("output") {
                    Kind::Out
                } else {
                    Kind::Mid
                };
                loop {
                    let name = self.id()?;
                    let dims = self.indices()?;
                    let init = if self.eat("<==") {
                        Some((true, self.expr()?))
                    } else if self.eat("<--") {
                        Some((false, self.expr()?))
                    } else {
                        None
                    };
                    if kind == Kind::In && init.is_some() {
                        return self.err("an input is assigned");
                    }
                    let slot = self.declare(name.clone(), What::Sig)?;
                    out.push(St::Sig(slot, kind, name, dims, init));
                    if !self.eat(",") {
                        return Ok(());
                    }
                }
            }
            self.eat_word("component");
            loop {
                let name = self.id()?;
                let dims = self.indices()?;
                let slot = self.declare(name, What::Comp)?;
                out.push(St::Comp(slot, dims));
                if self.eat("=") {
                    let (t, args) = self.instance()?;
                    out.push(St::New(slot, vec![], t, args));
                }
                if !self.eat(",") {
                    return Ok(());
                }
            }
        }
        if self.eat_word("return") {
            let e = self.expr()?;
            out.push(St::Ret(e));
            return Ok(());
        }
        if self.eat_word("assert") {
            self.need("(")?;
            let e = self.expr()?;
            self.need(")")?;
            out.push(St::Assert(e));
            return Ok(());
        }
        if self.eat_word("log") {
            self.need("(")?;
            let mut v = vec![];
            while !self.eat(")") {
                if matches!(self.peek(), Tok::Str) {
                    self.next();
                } else {
                    v.push(self.expr()?);
                }
                if !self.is(")") {
                    self.need(",")?;
                }
            }
            out.push(St::Log(v));
            return Ok(());
        }
        for (sym, op) in [("++", Op::Add), ("--", Op::Sub)] {
            if self.eat(sym) {
                let name = self.id()?;
                let Ex::Var(slot, ix) = self.place(name)? else { return self.err("no variable") };
                out.push(St::Set(slot, ix, Some(op), Ex::Num(S(1))));
                return Ok(());
            }
        }
        if self.tuple() {
            self.need("(")?;
            let mut to = vec![];
            while !self.eat(")") {
                to.push(if self.eat_word("_") { None } else { Some(self.primary()?) });
                if !self.is(")") {
                    self.need(",")?;
                }
            }
            let constrained = self.eat("<==");
            if !constrained {
                self.need("<--")?;
            }
            let e = self.expr()?;
            if !matches!(e, Ex::Anon(..)) || to.iter().flatten().any(|t| !matches!(t, Ex::Sig(..) | Ex::Port(..))) {
                return self.err("not an assignment of a component's outputs");
            }
            out.push(St::Outputs(to, constrained, e));
            return Ok(());
        }
        if self.eat_word("_") {
            if !self.eat("<==") {
                self.need("<--")?;
            }
            let e = self.expr()?;
            out.push(St::Log(vec![e]));
            return Ok(());
        }
        // an assignment or a constraint
        let l = self.expr()?;
        for (sym, constrained) in [("==>", true), ("-->", false)] {
            if self.eat(sym) {
                let name = self.id()?;
                let to = self.place(name)?;
                if !matches!(to, Ex::Sig(..) | Ex::Port(..)) {
                    return self.err("not an assignment to a signal");
                }
                out.push(St::Drive(to, constrained, l));
                return Ok(());
            }
        }
        if self.eat("===") {
            let r = self.expr()?;
            out.push(St::Equal(l, r));
            return Ok(());
        }
        match l {
            Ex::Var(slot, ix) => {
                let op = match self.next() {
                    Tok::Sym("=") => None,
                    Tok::Sym("+=") => Some(Op::Add),
                    Tok::Sym("-=") => Some(Op::Sub),
                    Tok::Sym("*=") => Some(Op::Mul),
                    Tok::Sym("/=") => Some(Op::Div),
                    Tok::Sym("\\=") => Some(Op::IDiv),
                    Tok::Sym("%=") => Some(Op::Mod),
                    Tok::Sym("**=") => Some(Op::Pow),
                    Tok::Sym("<<=") => Some(Op::Shl),
                    Tok::Sym(">>=") => Some(Op::Shr),
                    Tok::Sym("|=") => Some(Op::Or),
                    Tok::Sym("&=") => Some(Op::And),
                    Tok::Sym("^=") => Some(Op::Xor),
                    Tok::Sym(s @ ("++" | "--")) => {
                        let op = if s == "++" { Op::Add } else { Op::Sub };
                        out.push(St::Set(slot, ix, Some(op), Ex::Num(S(1))));
                        return Ok(());
                    }
                    _ => {
                        self.i -= 1;
                        return self.err("not an assignment to a variable");
                    }
                };
                let e = self.expr()?;
                out.push(St::Set(slot, ix, op, e));
                Ok(())
            }
            Ex::Port(slot, ix, p, _) if p.is_empty() => {
                self.need("=")?;
                let (t, args) = self.instance()?;
                out.push(St::New(slot, ix, t, args));
                Ok(())
            }
            l @ (Ex::Sig(..) | Ex::Port(..)) => {
                let constrained = if self.eat("<==") {
                    true
                } else if self.eat("<--") {
                    false
                } else {
                    return self.err("not an assignment to a signal");
                };
                let e = self.expr()?;
                out.push(St::Drive(l, constrained, e));
                Ok(())
            }
            _ => self.err("not a statement"),
        }
    }
    fn statement(&mut self, out: &mut Vec<St<F>>) -> Pr<()> {
        if self.eat(";") {
            return Ok(());
        }
        if self.is("{") {
            let b = self.block()?;
            out.push(St::Block(b));
            return Ok(());
        }
        if self.eat_word("if") {
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            let a = self.block()?;
            let b = if self.eat_word("else") { self.block()? } else { vec![] };
            out.push(St::If(c, a, b));
            return Ok(());
        }
        if self.eat_word("while") {
            self.need("(")?;
            let c = self.expr()?;
            self.need(")")?;
            let b = self.block()?;
            out.push(St::While(c, b));
            return Ok(());
        }
        if self.eat_word("for") {
            self.need("(")?;
            self.scopes.push(HashMap::new());
            let mut all = vec![];
            self.simple(&mut all)?;
            self.need(";")?;
            let c = self.expr()?;
            self.need(";")?;
            let mut step = vec![];
            self.simple(&mut step)?;
            self.need(")")?;
            let mut body = self.block()?;
            body.append(&mut step);
            self.scopes.pop();
            all.push(St::While(c, body));
            out.push(St::Block(all));
            return Ok(());
        }
        self.simple(out)?;
        self.need(";")
    }
    fn file(&mut self) -> Pr<()> {
        loop {
            if *self.peek() == Tok::End {
                return Ok(());
            }
            if self.eat_word("pragma") {
                while !self.eat(";") {
                    if self.next() == Tok::End {
                        return self.err("unclosed pragma");
                    }
                }
            } else if self.eat_word("include") {
                if self.next() != Tok::Str {
                    return self.err("include what?");
                }
                self.need(";")?;
            } else if self.eat_word("component") {
                if !self.eat_word("main") {
                    return self.err("component outside of a template");
                }
                let mut public = vec![];
                if self.eat("{") {
                    if !self.eat_word("public") {
                        return self.err("expected public");
                    }
                    self.need("[")?;
                    while !self.eat("]") {
                        public.push(self.id()?);
                        self.eat(",");
                    }
                    self.need("}")?;
                }
                self.need("=")?;
                let name = self.id()?;
                self.need("(")?;
                let mut args = vec![];
                while !self.eat(")") {
                    match self.next() {
                        Tok::Num(n) => args.push(u64::try_from(&n).map_err(|_| "main's parameter")?),
                        _ => return self.err("parameters of main"),
                    }
                    self.eat(",");
                }
                self.need(";")?;
                self.used.push((name.clone(), 0, true));
                if self.p.main.replace((name, args, public)).is_some() {
                    return self.err("two main components");
                }
            } else if self.word("template") || self.word("function") {
                self.template = self.word("template");
                self.i += 1;
                while self.eat_word("parallel") || self.eat_word("custom") {}
                let name = self.id()?;
                self.slots = 0;
                self.scopes = vec![HashMap::new()];
                self.need("(")?;
                let mut params = vec![];
                while !self.eat(")") {
                    let n = self.id()?;
                    params.push(self.declare(n, What::Var)?);
                    self.eat(",");
                }
                self.need("{")?;
                let mut body = vec![];
                while !self.eat("}") {
                    if *self.peek() == Tok::End {
                        return self.err("unclosed template");
                    }
                    self.statement(&mut body)?;
                }
                let head = body.iter().rposition(|s| matches!(s, St::Sig(_, Kind::In, ..))).map_or(0, |i| i + 1);
                let d = Def { name: name.clone(), params, slots: self.slots, body, template: self.template, head };
                if self.p.defs.insert(name.clone(), Arc::new(d)).is_some() {
                    return self.err(format!("{name} is defined twice"));
                }
            } else {
                return self.err("expected a template");
            }
        }
    }
}

impl<F: Fld> Program<F> {
    pub fn new(builtins: Vec<(&'static str, Builtin<F>)>) -> Self {
        Program { defs: HashMap::new(), builtins: builtins.into_iter().map(|(n, b)| (n, Arc::new(b))).collect(), main: None, files: vec![] }
    }
    /// This program with the definitions of a text, which replace none. Names may be defined later when `open`.
    pub fn with(&self, text: &str, open: bool) -> Result<Self, String> {
        let t = lex(text)?;
        let mut p = Parser { t: &t, i: 0, scopes: vec![], slots: 0, template: false, p: self.clone(), used: vec![] };
        p.file()?;
        let (used, prog) = (p.used, p.p);
        if !open {
            for (name, line, template) in used {
                let ok = match prog.defs.get(&name) {
                    Some(d) => d.template == template,
                    None => template && prog.builtins.contains_key(name.as_str()),
                };
                if !ok {
                    return Err(format!("line {line}: {name} is not defined"));
                }
            }
        }
        Ok(prog)
    }
}

// ------------------------------------------------------------------ evaluation
type Nums<F> = Vec<Option<N<F>>>;
struct Port<F> {
    name: String,
    dims: Vec<usize>,
    data: Nums<F>,
}
enum Code<F> {
    Text(Arc<Def<F>>),
    Given(Arc<Builtin<F>>),
}
struct Inst<F> {
    name: String,
    code: Code<F>,
    args: Vec<Val<F>>,
    ins: Vec<Port<F>>,
    missing: usize,
    outs: Option<Vec<Port<F>>>,
}
enum Cell<F> {
    No,
    Var(Val<F>),
    Sig(Vec<usize>, Nums<F>),
    Comp(Vec<usize>, Vec<Option<Inst<F>>>),
}
struct Frame<F> {
    name: String,
    cells: Vec<Cell<F>>,
    /// only the variables are evaluated, to learn the shapes of the inputs
    shapes: Option<Vec<Port<F>>>,
    ins: Vec<Port<F>>,
    outs: Vec<(usize, String)>,
    ret: Option<Val<F>>,
}
pub struct Machine<'a, F> {
    p: &'a Program<F>,
    memo: HashMap<(String, Vec<u64>), Val<F>>,
    fuel: u64,
    /// values given without a constraint so far
    pub hints: usize,
    /// changes one of them
    pub tamper: Vec<(usize, N<F>)>,
    /// where they stand, in the order of their first execution
    pub sites: Option<Vec<Site<F>>>,
    /// gathers the differences of what is compared, instead of refusing the inputs
    pub gap: Option<Vec<F>>,
    /// decompositions into enough bits for a second one
    pub doubles: usize,
    /// takes the second one
    pub second: Option<usize>,
    /// remembers the inputs of this template's instances
    pub watch: Option<String>,
    pub seen: Vec<Seen<F>>,
    pub constraints: usize,
}
/// an assignment without a constraint: its place, its template, the numbers and values of its executions
pub struct Site<F> {
    at: usize,
    pub template: String,
    pub hints: Vec<usize>,
    pub values: Vec<N<F>>,
}
/// an instance's parameters and inputs
pub struct Seen<F> {
    pub args: Vec<usize>,
    pub ports: Vec<String>,
    pub ins: Vec<Vec<N<F>>>,
}
/// offset and number of the elements an index selects, and their shape
fn select<'d>(dims: &'d [usize], ix: &[usize]) -> Option<(usize, usize, &'d [usize])> {
    if ix.len() > dims.len() {
        return None;
    }
    let mut off = 0;
    for (i, d) in ix.iter().zip(dims) {
        if i >= d {
            return None;
        }
        off = off * d + i;
    }
    let rest = &dims[ix.len()..];
    let n: usize = rest.iter().product();
    Some((off * n, n, rest))
}

impl<'a, F: Fld> Machine<'a, F> {
    pub fn new(p: &'a Program<F>) -> Self {
        Machine { p, memo: HashMap::new(), fuel: 400_000_000, hints: 0, tamper: vec![], sites: None, gap: None, doubles: 0, second: None, watch: None, seen: vec![], constraints: 0 }
    }
    fn burn(&mut self) -> Res<()> {
        self.fuel -= 1;
        if self.fuel == 0 {
            return bad("endless");
        }
        Ok(())
    }
    fn op(&self, op: Op, a: T<F>, b: T<F>) -> Res<T<F>> {
        let worst = if a.d | b.d == 0 { 0 } else { 3 };
        let truth = |x: bool| T { n: S(x as u64), d: worst };
        Ok(match op {
            Op::Add | Op::Sub => {
                let d = if a.d == 2 && b.d == 2 { 3 } else { a.d.max(b.d) };
                let n = match (op, a.n, b.n) {
                    (Op::Add, S(x), S(y)) if x + y < SMALL => S(x + y),
                    (Op::Sub, S(x), S(y)) if x >= y => S(x - y),
                    (Op::Add, x, y) => B(x.f().add(y.f())),
                    (_, x, y) => B(x.f().sub(y.f())),
                };
                T { n, d }
            }
            Op::Mul => {
                let n = match (a.n, b.n) {
                    (S(x), S(y)) if (x as u128 * y as u128) < SMALL as u128 => S(x * y),
                    (x, y) => B(x.f().mul(y.f())),
                };
                T { n, d: (a.d + b.d).min(3) }
            }
            Op::Div => match b.n.f().inv() {
                Some(i) => T { n: B(a.n.f().mul(i)), d: if b.d == 0 { a.d } else { 3 } },
                None => return Err(Stop::Reject("division by zero".into())),
            },
            Op::IDiv | Op::Mod => {
                if !b.n.truth() {
                    return Err(Stop::Reject("division by zero".into()));
                }
                let n = match (a.n, b.n) {
                    (S(x), S(y)) => S(if op == Op::IDiv { x / y } else { x % y }),
                    (x, y) => {
                        let (x, y) = (x.int(), y.int());
                        N::of(&if op == Op::IDiv { x / y } else { x % y })
                    }
                };
                T { n, d: worst }
            }
            Op::Pow => T { n: N::of(&a.n.int().modpow(&b.n.int(), F::modulus())), d: worst },
            Op::Shl | Op::Shr => {
                let Some(k) = b.n.index() else { return bad("shift by a field element") };
                let x = a.n.int();
                let mask = (BigUint::from(1u32) << F::modulus().bits()) - 1u32;
                T { n: N::of(&if op == Op::Shl { ((x << k) & mask) % F::modulus() } else { x >> k }), d: worst }
            }
            Op::And => T { n: N::of(&(a.n.int() & b.n.int())), d: worst },
            Op::Or => T { n: N::of(&((a.n.int() | b.n.int()) % F::modulus())), d: worst },
            Op::Xor => T { n: N::of(&((a.n.int() ^ b.n.int()) % F::modulus())), d: worst },
            Op::Lt => truth(a.n.cmp(b.n).is_lt()),
            Op::Le => truth(a.n.cmp(b.n).is_le()),
            Op::Gt => truth(a.n.cmp(b.n).is_gt()),
            Op::Ge => truth(a.n.cmp(b.n).is_ge()),
            Op::Eq => truth(a.n.same(b.n)),
            Op::Ne => truth(!a.n.same(b.n)),
            Op::LAnd => truth(a.n.truth() && b.n.truth()),
            Op::LOr => truth(a.n.truth() || b.n.truth()),
        })
    }
    fn one(&mut self, f: &mut Frame<F>, e: &Ex<F>) -> Res<T<F>> {
        match self.eval(f, e)? {
            Val::One(t) => Ok(t),
            Val::Many(_) => bad(format!("{}: an array where a number is needed", f.name)),
        }
    }
    fn number(&mut self, f: &mut Frame<F>, e: &Ex<F>) -> Res<usize> {
        let t = self.one(f, e)?;
        if t.d > 0 {
            return bad(format!("{}: a signal decides the shape of the circuit", f.name));
        }
        match t.n.index() {
            Some(i) => Ok(i),
            None => bad(format!("{}: index or size out of range", f.name)),
        }
    }
    fn numbers(&mut self, f: &mut Frame<F>, v: &[Ex<F>]) -> Res<Vec<usize>> {
        v.iter().map(|e| self.number(f, e)).collect()
    }
    /// indices into variables may depend on signals, where nothing is constrained by the result
    fn any_numbers(&mut self, f: &mut Frame<F>, v: &[Ex<F>]) -> Res<Vec<usize>> {
        let mut out = Vec::with_capacity(v.len());
        for e in v {
            match self.one(f, e)?.n.index() {
                Some(i) => out.push(i),
                None => return bad(format!("{}: index out of range", f.name)),
            }
        }
        Ok(out)
    }
    fn read(name: &str, dims: &[usize], data: &Nums<F>, ix: &[usize]) -> Res<Val<F>> {
        let Some((off, n, rest)) = select(dims, ix) else { return bad(format!("{name}: index {ix:?} into {dims:?}")) };
        let mut v = Vec::with_capacity(n);
        for x in &data[off..off + n] {
            match x {
                Some(x) => v.push(T { n: *x, d: 1 }),
                None => return bad(format!("{name}: a signal is read before it is assigned")),
            }
        }
        Ok(Val::make(rest.to_vec(), v))
    }
    fn eval(&mut self, f: &mut Frame<F>, e: &Ex<F>) -> Res<Val<F>> {
        self.burn()?;
        match e {
            Ex::Num(n) => Ok(Val::One(T { n: *n, d: 0 })),
            Ex::Var(slot, ix) => {
                let ix = self.any_numbers(f, ix)?;
                let Cell::Var(v) = &f.cells[*slot] else { return bad(format!("{}: a variable is used before its declaration", f.name)) };
                if ix.is_empty() {
                    return Ok(v.clone());
                }
                let (dims, data) = v.flat();
                match select(dims, &ix) {
                    Some((off, n, rest)) => Ok(Val::make(rest.to_vec(), data[off..off + n].to_vec())),
                    None => bad(format!("{}: index {ix:?} into a variable of {dims:?}", f.name)),
                }
            }
            Ex::Sig(slot, ix) => {
                let ix = self.numbers(f, ix)?;
                match &f.cells[*slot] {
                    Cell::Sig(dims, data) => Self::read(&f.name, dims, data, &ix),
                    _ => bad(format!("{}: a signal is used before its declaration", f.name)),
                }
            }
            Ex::Port(slot, cix, port, ix) => {
                let cix = self.numbers(f, cix)?;
                let ix = self.numbers(f, ix)?;
                let Cell::Comp(dims, v) = &f.cells[*slot] else { return bad(format!("{}: a component is used before its declaration", f.name)) };
                let inst = match select(dims, &cix) {
                    Some((off, 1, [])) => v[off].as_ref(),
                    _ => return bad(format!("{}: component index {cix:?} into {dims:?}", f.name)),
                };
                let Some(inst) = inst else { return bad(format!("{}: a component is used before it is created", f.name)) };
                if let Some(p) = inst.ins.iter().find(|p| p.name == *port) {
                    return Self::read(&inst.name, &p.dims, &p.data, &ix);
                }
                let Some(outs) = &inst.outs else {
                    return bad(format!("{}: {}.{port} is read before all inputs are assigned", f.name, inst.name));
                };
                match outs.iter().find(|p| p.name == *port) {
                    Some(p) => Self::read(&inst.name, &p.dims, &p.data, &ix),
                    None => bad(format!("{}: {} has no signal {port:?}", f.name, inst.name)),
                }
            }
            Ex::Call(name, args) => {
                let args = args.iter().map(|a| self.eval(f, a)).collect::<Res<Vec<_>>>()?;
                self.call(name, args)
            }
            Ex::Anon(name, ..) => {
                let inst = self.anonymous(f, e)?;
                match inst.outs {
                    Some(o) if o.len() == 1 => Self::read(&inst.name, &o[0].dims, &o[0].data, &[]),
                    _ => bad(format!("{}: {name} without one output", f.name)),
                }
            }
            Ex::List(v) => {
                let (mut dims, mut data) = (vec![], vec![]);
                for (k, e) in v.iter().enumerate() {
                    let x = self.eval(f, e)?;
                    let (d, n) = x.flat();
                    if k == 0 {
                        dims = d.to_vec();
                    } else if dims != d {
                        return bad(format!("{}: the elements of a list have different shapes", f.name));
                    }
                    data.extend_from_slice(n);
                }
                dims.insert(0, v.len());
                Ok(Val::make(dims, data))
            }
            Ex::Neg(e) => {
                let t = self.one(f, e)?;
                Ok(Val::One(self.op(Op::Sub, T { n: S(0), d: 0 }, t)?))
            }
            Ex::Not(e) => {
                let t = self.one(f, e)?;
                Ok(Val::One(T { n: S(!t.n.truth() as u64), d: if t.d == 0 { 0 } else { 3 } }))
            }
            Ex::Comp(e) => {
                let t = self.one(f, e)?;
                let mask = (BigUint::from(1u32) << F::modulus().bits()) - 1u32;
                Ok(Val::One(T { n: N::of(&((t.n.int() ^ mask) % F::modulus())), d: if t.d == 0 { 0 } else { 3 } }))
            }
            Ex::Bin(op, a, b) => {
                let a = self.one(f, a)?;
                if *op == Op::LAnd && !a.n.truth() || *op == Op::LOr && a.n.truth() {
                    return Ok(Val::One(T { n: S(a.n.truth() as u64), d: a.d }));
                }
                let b = self.one(f, b)?;
                Ok(Val::One(self.op(*op, a, b)?))
            }
            Ex::If(c, a, b) => {
                if self.one(f, c)?.n.truth() {
                    self.eval(f, a)
                } else {
                    self.eval(f, b)
                }
            }
        }
    }
    fn anonymous(&mut self, f: &mut Frame<F>, e: &Ex<F>) -> Res<Inst<F>> {
        let Ex::Anon(name, args, ins) = e else { unreachable!() };
        let args = args.iter().map(|a| self.eval(f, a)).collect::<Res<Vec<_>>>()?;
        let mut inst = self.create(name, args)?;
        if inst.ins.len() != ins.len() {
            return bad(format!("{}: {name} has {} inputs, {} are given", f.name, inst.ins.len(), ins.len()));
        }
        for (k, e) in ins.iter().enumerate() {
            let v = self.eval(f, e)?;
            let port = inst.ins[k].name.clone();
            self.feed(&f.name, &mut inst, &port, &[], &v)?;
        }
        Ok(inst)
    }
    fn call(&mut self, name: &str, args: Vec<Val<F>>) -> Res<Val<F>> {
        let p = self.p;
        let Some(d) = p.defs.get(name).filter(|d| !d.template) else { return bad(format!("there is no function {name}")) };
        if d.params.len() != args.len() {
            return bad(format!("{name} takes {} parameters", d.params.len()));
        }
        // functions of small constants are evaluated once
        let key: Option<Vec<u64>> = args.iter().map(|a| match a {
            Val::One(T { n: S(v), d: 0 }) => Some(*v),
            _ => None,
        }).collect();
        let key = key.map(|k| (name.to_string(), k));
        if let Some(v) = key.as_ref().and_then(|k| self.memo.get(k)) {
            return Ok(v.clone());
        }
        let worst = args.iter().any(|a| a.flat().1.iter().any(|t| t.d > 0));
        let mut f = Frame { name: name.to_string(), cells: cells(d.slots), shapes: None, ins: vec![], outs: vec![], ret: None };
        for (s, a) in d.params.iter().zip(args) {
            f.cells[*s] = Cell::Var(a);
        }
        self.block(&mut f, &d.body)?;
        let Some(mut v) = f.ret else { return bad(format!("{name} returns nothing")) };
        if worst {
            let (dims, data) = v.flat();
            v = Val::make(dims.to_vec(), data.iter().map(|t| T { n: t.n, d: 3 }).collect());
        }
        if let Some(k) = key {
            self.memo.insert(k, v.clone());
        }
        Ok(v)
    }
    fn create(&mut self, name: &str, args: Vec<Val<F>>) -> Res<Inst<F>> {
        let p = self.p;
        if let Some(d) = p.defs.get(name).filter(|d| d.template) {
            if d.params.len() != args.len() {
                return bad(format!("{name} takes {} parameters, {} are given", d.params.len(), args.len()));
            }
            let mut f = Frame { name: name.to_string(), cells: cells(d.slots), shapes: Some(vec![]), ins: vec![], outs: vec![], ret: None };
            for (s, a) in d.params.iter().zip(&args) {
                f.cells[*s] = Cell::Var(a.clone());
            }
            self.block(&mut f, &d.body[..d.head])?;
            let ins = f.shapes.unwrap();
            return self.instance(name, Code::Text(d.clone()), args, ins);
        }
        let Some(b) = p.builtins.get(name) else { return bad(format!("there is no template {name}")) };
        let Some((ins, _, _)) = numbers(&args).and_then(|a| (b.ports)(&a)) else { return bad(format!("{name} with these parameters")) };
        let ins = ins.into_iter().map(|(n, dims)| Port { name: n.to_string(), data: vec![None; dims.iter().product()], dims }).collect();
        self.instance(name, Code::Given(b.clone()), args, ins)
    }
    fn instance(&mut self, name: &str, code: Code<F>, args: Vec<Val<F>>, ins: Vec<Port<F>>) -> Res<Inst<F>> {
        let missing = ins.iter().map(|p| p.data.len()).sum();
        let mut i = Inst { name: name.to_string(), code, args, ins, missing, outs: None };
        if missing == 0 {
            self.run(&mut i)?;
        }
        Ok(i)
    }
    fn feed(&mut self, by: &str, inst: &mut Inst<F>, port: &str, ix: &[usize], v: &Val<F>) -> Res<()> {
        let Some(p) = inst.ins.iter_mut().find(|p| p.name == port) else { return bad(format!("{by}: {} has no input {port:?}", inst.name)) };
        let n = store(&format!("{by}: {}.{port}", inst.name), &p.dims, &mut p.data, ix, v)?;
        inst.missing -= n;
        if inst.missing == 0 && n > 0 {
            self.run(inst)?;
        }
        Ok(())
    }
    fn run(&mut self, inst: &mut Inst<F>) -> Res<()> {
        match &inst.code {
            Code::Given(b) => {
                let args = numbers(&inst.args).unwrap_or_default();
                let ins: Vec<Vec<N<F>>> = inst.ins.iter().map(|p| p.data.iter().map(|x| x.unwrap()).collect()).collect();
                let mut out = (b.run)(&args, &ins).map_err(|e| Stop::Reject(format!("{}: {e}", inst.name)))?;
                if inst.name == "Num2Bits" {
                    let x = ins[0][0].int() + F::modulus();
                    if x.bits() <= out.len() as u64 {
                        if self.second == Some(self.doubles) {
                            out = (0..out.len() as u64).map(|i| S(x.bit(i) as u64)).collect();
                        }
                        self.doubles += 1;
                    }
                }
                let (_, name, dims) = (b.ports)(&args).unwrap();
                inst.outs = Some(vec![Port { name: name.to_string(), dims, data: out.into_iter().map(Some).collect() }]);
                Ok(())
            }
            Code::Text(d) => {
                let d = d.clone();
                if self.seen.len() < 32 && self.watch.as_ref() == Some(&inst.name) {
                    if let Some(args) = numbers(&inst.args) {
                        let ports = inst.ins.iter().map(|p| p.name.clone()).collect();
                        let ins = inst.ins.iter().map(|p| p.data.iter().map(|x| x.unwrap()).collect()).collect();
                        self.seen.push(Seen { args, ports, ins });
                    }
                }
                let ins = inst.ins.iter().map(|p| Port { name: p.name.clone(), dims: p.dims.clone(), data: p.data.clone() }).collect();
                let mut f = Frame { name: inst.name.clone(), cells: cells(d.slots), shapes: None, ins, outs: vec![], ret: None };
                for (s, a) in d.params.iter().zip(&inst.args) {
                    f.cells[*s] = Cell::Var(a.clone());
                }
                self.block(&mut f, &d.body)?;
                for c in &f.cells {
                    if let Cell::Comp(_, v) = c {
                        if let Some(i) = v.iter().flatten().find(|i| i.outs.is_none()) {
                            let p = i.ins.iter().find(|p| p.data.iter().any(|x| x.is_none()));
                            return bad(format!("{}: input {}.{} is never assigned", d.name, i.name, p.map_or("", |p| &p.name)));
                        }
                    }
                }
                let mut outs = vec![];
                for (slot, name) in std::mem::take(&mut f.outs) {
                    if let Cell::Sig(dims, data) = std::mem::replace(&mut f.cells[slot], Cell::No) {
                        if data.iter().any(|x| x.is_none()) {
                            return bad(format!("{}: output {name} is never assigned", d.name));
                        }
                        outs.push(Port { name, dims, data });
                    }
                }
                inst.outs = Some(outs);
                Ok(())
            }
        }
    }
    fn block(&mut self, f: &mut Frame<F>, b: &[St<F>]) -> Res<()> {
        for s in b {
            self.statement(f, s)?;
            if f.ret.is_some() {
                break;
            }
        }
        Ok(())
    }
    fn constrain(&mut self, f: &Frame<F>, t: &T<F>) -> Res<()> {
        self.constraints += 1;
        if t.d > 2 {
            return bad(format!("{}: a constraint is not quadratic", f.name));
        }
        Ok(())
    }
    /// a value given to signals, with or without a constraint
    fn given(&mut self, f: &Frame<F>, s: &St<F>, constrained: bool, v: Val<F>) -> Res<Val<F>> {
        if constrained {
            for t in v.flat().1 {
                self.constrain(f, t)?;
            }
            return Ok(v);
        }
        let (dims, data) = v.flat();
        let mut data = data.to_vec();
        for t in data.iter_mut() {
            if let Some((_, by)) = self.tamper.iter().find(|t| t.0 == self.hints) {
                *t = self.op(Op::Add, *t, T { n: *by, d: 0 })?;
            }
            if let Some(sites) = &mut self.sites {
                let at = s as *const St<F> as usize;
                let i = sites.iter().position(|s| s.at == at).unwrap_or_else(|| {
                    sites.push(Site { at, template: f.name.clone(), hints: vec![], values: vec![] });
                    sites.len() - 1
                });
                sites[i].hints.push(self.hints);
                sites[i].values.push(t.n);
            }
            self.hints += 1;
        }
        Ok(Val::make(dims.to_vec(), data))
    }
    fn drive(&mut self, f: &mut Frame<F>, l: &Ex<F>, v: Val<F>) -> Res<()> {
        match l {
            Ex::Sig(slot, ix) => {
                let ix = self.numbers(f, ix)?;
                let Cell::Sig(dims, data) = &mut f.cells[*slot] else { return bad(format!("{}: a signal is used before its declaration", f.name)) };
                store(&f.name, dims, data, &ix, &v)?;
            }
            Ex::Port(slot, cix, port, ix) => {
                let (cix, ix) = (self.numbers(f, cix)?, self.numbers(f, ix)?);
                let by = f.name.clone();
                let Cell::Comp(dims, comps) = &mut f.cells[*slot] else { return bad(format!("{by}: a component is used before its declaration")) };
                let inst = match select(dims, &cix) {
                    Some((off, 1, [])) => comps[off].as_mut(),
                    _ => return bad(format!("{by}: component index {cix:?} into {dims:?}")),
                };
                let Some(inst) = inst else { return bad(format!("{by}: an input of a component that is not created yet")) };
                self.feed(&by, inst, port, &ix, &v)?;
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn statement(&mut self, f: &mut Frame<F>, s: &St<F>) -> Res<()> {
        self.burn()?;
        match s {
            St::Var(slot, dims, init) => {
                let dims = self.any_numbers(f, dims)?;
                let zero = T { n: S(0), d: 0 };
                let v = match init {
                    None => Val::make(dims.clone(), vec![zero; dims.iter().product::<usize>().max(dims.is_empty() as usize)]),
                    Some(e) => {
                        let v = self.eval(f, e)?;
                        if v.flat().0 != dims {
                            return bad(format!("{}: a variable of shape {dims:?} is given {:?}", f.name, v.flat().0));
                        }
                        v
                    }
                };
                f.cells[*slot] = Cell::Var(v);
            }
            St::Sig(slot, kind, name, dims, init) => {
                let dims = self.numbers(f, dims)?;
                let n = dims.iter().product::<usize>();
                if let Some(shapes) = &mut f.shapes {
                    if *kind == Kind::In {
                        shapes.push(Port { name: name.clone(), dims, data: vec![None; n] });
                    }
                    return Ok(());
                }
                let data = match kind {
                    Kind::In => match f.ins.iter_mut().find(|p| p.name == *name) {
                        Some(p) => std::mem::take(&mut p.data),
                        None => return bad(format!("{}: input {name} is declared in a condition", f.name)),
                    },
                    _ => vec![None; n],
                };
                if *kind == Kind::Out {
                    f.outs.push((*slot, name.clone()));
                }
                f.cells[*slot] = Cell::Sig(dims, data);
                if let Some((constrained, e)) = init {
                    let v = self.eval(f, e)?;
                    let v = self.given(f, s, *constrained, v)?;
                    let Cell::Sig(dims, data) = &mut f.cells[*slot] else { unreachable!() };
                    store(&format!("{}: {name}", f.name), dims, data, &[], &v)?;
                }
            }
            St::Comp(..) | St::New(..) | St::Drive(..) | St::Outputs(..) | St::Equal(..) if f.shapes.is_some() => {}
            St::Comp(slot, dims) => {
                let dims = self.numbers(f, dims)?;
                let n = dims.iter().product::<usize>();
                f.cells[*slot] = Cell::Comp(dims, (0..n).map(|_| None).collect());
            }
            St::New(slot, ix, name, args) => {
                let ix = self.numbers(f, ix)?;
                let args = args.iter().map(|a| self.eval(f, a)).collect::<Res<Vec<_>>>()?;
                if args.iter().any(|a| a.flat().1.iter().any(|t| t.d > 0)) {
                    return bad(format!("{}: a parameter of {name} depends on a signal", f.name));
                }
                let inst = self.create(name, args)?;
                let Cell::Comp(dims, v) = &mut f.cells[*slot] else { return bad(format!("{}: a component is used before its declaration", f.name)) };
                match select(dims, &ix) {
                    Some((off, 1, [])) if v[off].is_none() => v[off] = Some(inst),
                    _ => return bad(format!("{}: component {name} {ix:?} of {dims:?} is created twice or has a wrong index", f.name)),
                }
            }
            St::Set(slot, ix, op, e) => {
                let ix = self.any_numbers(f, ix)?;
                let v = self.eval(f, e)?;
                let v = match op {
                    None => v,
                    Some(op) => {
                        let Val::One(new) = v else { return bad(format!("{}: arithmetic on an array", f.name)) };
                        let Cell::Var(old) = &f.cells[*slot] else { return bad(format!("{}: a variable is used before its declaration", f.name)) };
                        let (dims, data) = old.flat();
                        match select(dims, &ix) {
                            Some((off, 1, [])) => Val::One(self.op(*op, data[off], new)?),
                            _ => return bad(format!("{}: index {ix:?} into a variable of {dims:?}", f.name)),
                        }
                    }
                };
                let Cell::Var(old) = &mut f.cells[*slot] else { return bad(format!("{}: a variable is used before its declaration", f.name)) };
                let (dims, _) = old.flat();
                let Some((off, n, rest)) = select(dims, &ix) else { return bad(format!("{}: index {ix:?} into a variable of {dims:?}", f.name)) };
                if rest != v.flat().0 {
                    return bad(format!("{}: a variable of shape {rest:?} is given {:?}", f.name, v.flat().0));
                }
                match old {
                    Val::One(t) => *t = v.flat().1[0],
                    Val::Many(a) if !ix.is_empty() => Arc::make_mut(a).data[off..off + n].copy_from_slice(v.flat().1),
                    old => *old = v,
                }
            }
            St::Drive(l, constrained, e) => {
                let v = self.eval(f, e)?;
                let v = self.given(f, s, *constrained, v)?;
                self.drive(f, l, v)?;
            }
            St::Outputs(to, constrained, e) => {
                let inst = self.anonymous(f, e)?;
                let outs = inst.outs.unwrap_or_default();
                if outs.len() != to.len() {
                    return bad(format!("{}: {} has {} outputs, {} are taken", f.name, inst.name, outs.len(), to.len()));
                }
                for (to, o) in to.iter().zip(&outs) {
                    let v = Self::read(&inst.name, &o.dims, &o.data, &[])?;
                    if let Some(l) = to {
                        let v = self.given(f, s, *constrained, v)?;
                        self.drive(f, l, v)?;
                    }
                }
            }
            St::Equal(a, b) => {
                let (a, b) = (self.eval(f, a)?, self.eval(f, b)?);
                if a.flat().0 != b.flat().0 {
                    return bad(format!("{}: different shapes are compared", f.name));
                }
                for (x, y) in a.flat().1.iter().zip(b.flat().1) {
                    let d = self.op(Op::Sub, *x, *y)?;
                    self.constrain(f, &d)?;
                    if let Some(gap) = &mut self.gap {
                        gap.push(d.n.f());
                    } else if !x.n.same(y.n) {
                        return Err(Stop::Reject(format!("{}: a constraint fails: {} === {}", f.name, x.n.int(), y.n.int())));
                    }
                }
            }
            St::If(c, a, b) => {
                let c = self.one(f, c)?;
                return self.block(f, if c.n.truth() { a } else { b });
            }
            St::While(c, b) => {
                while self.one(f, c)?.n.truth() {
                    self.block(f, b)?;
                    if f.ret.is_some() {
                        break;
                    }
                }
            }
            St::Block(b) => return self.block(f, b),
            St::Ret(e) => f.ret = Some(self.eval(f, e)?),
            St::Assert(e) => {
                if !self.one(f, e)?.n.truth() {
                    return Err(Stop::Reject(format!("{}: an assertion fails", f.name)));
                }
            }
            St::Log(v) => {
                for e in v {
                    self.eval(f, e)?;
                }
            }
        }
        Ok(())
    }
    /// Evaluates the main component on named inputs; gives its outputs.
    pub fn main(&mut self, input: &mut dyn FnMut(&str) -> Option<Vec<BigUint>>) -> Res<HashMap<String, Vec<BigUint>>> {
        let Some((name, args, public)) = &self.p.main else { return bad("there is no main component") };
        let args = args.iter().map(|a| Val::One(T { n: S(*a), d: 0 })).collect();
        let mut inst = self.create(name, args)?;
        for p in public {
            if !inst.ins.iter().any(|i| i.name == *p) {
                return bad(format!("{p} is public but no input"));
            }
        }
        for k in 0..inst.ins.len() {
            let (port, want) = (inst.ins[k].name.clone(), inst.ins[k].data.len());
            let Some(v) = input(&port) else { return Err(Stop::Reject(format!("no input {port}"))) };
            if v.len() != want {
                return Err(Stop::Reject(format!("{} values for input {port}, not {want}", v.len())));
            }
            if want == 0 {
                continue;
            }
            let v = Val::make(inst.ins[k].dims.clone(), v.iter().map(|x| T { n: N::of(x), d: 1 }).collect());
            self.feed("main", &mut inst, &port, &[], &v)?;
        }
        let Some(outs) = inst.outs else { return bad("main has no inputs") };
        Ok(outs.into_iter().map(|p| (p.name, p.data.into_iter().flatten().map(|n| n.int()).collect())).collect())
    }
    /// the templates of the text that belong to no library
    pub fn templates(&self, library: &Program<F>) -> Vec<String> {
        let mut v: Vec<String> = self.p.defs.iter().filter(|(n, d)| d.template && !library.defs.contains_key(*n)).map(|(n, _)| n.clone()).collect();
        v.sort();
        v
    }
    pub fn is_in(&self, name: &str) -> bool {
        self.p.defs.contains_key(name)
    }
    /// whether the program has a template of this name and these inputs
    pub fn offers(&mut self, name: &str, args: &[usize], ins: &[Vec<N<F>>]) -> bool {
        let n = args.len();
        if !self.p.defs.get(name).is_some_and(|d| d.template && d.params.len() == n) {
            return false;
        }
        let args = args.iter().map(|a| Val::One(T { n: S(*a as u64), d: 0 })).collect();
        match self.create(name, args) {
            Ok(i) => i.ins.len() == ins.len() && i.ins.iter().zip(ins).all(|(p, v)| p.data.len() == v.len()),
            Err(_) => true,
        }
    }
    /// a function's value
    pub fn function(&mut self, name: &str, arg: usize) -> Option<Res<BigUint>> {
        if !self.p.defs.get(name).is_some_and(|d| !d.template && d.params.len() == 1) {
            return None;
        }
        Some(match self.call(name, vec![Val::One(T { n: S(arg as u64), d: 0 })]) {
            Ok(Val::One(t)) => Ok(t.n.int()),
            Ok(_) => bad(format!("{name} gives no number")),
            Err(e) => Err(e),
        })
    }
    /// One template by its name, on inputs in the order of their declaration.
    pub fn template(&mut self, name: &str, args: &[usize], ins: &[Vec<N<F>>]) -> Res<Vec<N<F>>> {
        let args = args.iter().map(|a| Val::One(T { n: S(*a as u64), d: 0 })).collect();
        let mut inst = self.create(name, args)?;
        if inst.ins.len() != ins.len() {
            return bad(format!("{name} has {} inputs", inst.ins.len()));
        }
        for (k, v) in ins.iter().enumerate() {
            let port = inst.ins[k].name.clone();
            if inst.ins[k].data.len() != v.len() {
                return bad(format!("{name}.{port} has {} elements", inst.ins[k].data.len()));
            }
            if v.is_empty() {
                continue;
            }
            let v = Val::make(inst.ins[k].dims.clone(), v.iter().map(|n| T { n: *n, d: 1 }).collect());
            self.feed("the test", &mut inst, &port, &[], &v)?;
        }
        match inst.outs {
            Some(o) => Ok(o.into_iter().flat_map(|p| p.data).flatten().collect()),
            None => bad(format!("{name} is not evaluated")),
        }
    }
}
fn cells<F>(n: usize) -> Vec<Cell<F>> {
    (0..n).map(|_| Cell::No).collect()
}
fn numbers<F: Fld>(args: &[Val<F>]) -> Option<Vec<usize>> {
    args.iter().map(|a| match a {
        Val::One(T { n, d: 0 }) => n.index(),
        _ => None,
    }).collect()
}
/// Assigns signals; gives how many.
fn store<F: Fld>(what: &str, dims: &[usize], data: &mut Nums<F>, ix: &[usize], v: &Val<F>) -> Res<usize> {
    let (have, vals) = v.flat();
    let Some((off, n, rest)) = select(dims, ix) else { return bad(format!("{what}: index {ix:?} into {dims:?}")) };
    if rest != have {
        return bad(format!("{what}: signals of shape {rest:?} are given {have:?}"));
    }
    for (k, t) in vals.iter().enumerate() {
        if data[off + k].replace(t.n).is_some() {
            return bad(format!("{what}: a signal is assigned twice"));
        }
    }
    Ok(n)
}
