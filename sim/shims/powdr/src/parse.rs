use crate::ast::analyzed::*;
use crate::number::FieldElement;
use powdr_parser_util::SourceRef;
use std::collections::HashMap;
use std::sync::Arc;

const P: u64 = 0xFFFF_FFFF_0000_0001;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Name(String),
    Num(u64),
    Sym(char),
    Pow,
    End,
}
fn lex(text: &str) -> Result<Vec<(usize, Tok)>, String> {
    let b: Vec<(usize, char)> = text.char_indices().collect();
    let mut out = vec![];
    let mut k = 0;
    while k < b.len() {
        let (at, c) = b[k];
        let next = b.get(k + 1).map(|x| x.1);
        if c.is_whitespace() {
            k += 1;
        } else if c == '/' && next == Some('/') {
            while k < b.len() && b[k].1 != '\n' {
                k += 1;
            }
        } else if c.is_ascii_digit() {
            let mut s = String::new();
            while k < b.len() && b[k].1.is_ascii_alphanumeric() {
                s.push(b[k].1);
                k += 1;
            }
            let n = match s.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h, 16),
                None => s.parse(),
            };
            out.push((at, Tok::Num(n.map_err(|e| format!("{s}: {e}"))?)));
        } else if c.is_alphabetic() || c == '_' || c == '%' {
            let mut s = String::new();
            while k < b.len() && (b[k].1.is_alphanumeric() || matches!(b[k].1, '_' | '%')) {
                s.push(b[k].1);
                k += 1;
            }
            out.push((at, Tok::Name(s)));
        } else if c == '*' && next == Some('*') {
            out.push((at, Tok::Pow));
            k += 2;
        } else if "()[]{}+-*=;:,.'".contains(c) {
            out.push((at, Tok::Sym(c)));
            k += 1;
        } else {
            return Err(format!("unexpected {c:?} at {at}"));
        }
    }
    out.push((text.len(), Tok::End));
    Ok(out)
}

struct Parser<'a, T> {
    toks: Vec<(usize, Tok)>,
    at: usize,
    text: Arc<str>,
    file: Option<&'a str>,
    namespace: String,
    numbers: HashMap<String, u64>,
    ids: [u64; 3],
    out: Analyzed<T>,
}
type Res<X> = Result<X, String>;

pub fn analyze<T: FieldElement>(text: &str, file: Option<&str>) -> Res<Analyzed<T>> {
    let mut p = Parser {
        toks: lex(text)?,
        at: 0,
        text: Arc::from(text),
        file,
        namespace: String::new(),
        numbers: HashMap::new(),
        ids: [0; 3],
        out: Analyzed {
            degree: 0,
            definitions: HashMap::new(),
            intermediate_columns: HashMap::new(),
            public_declarations: HashMap::new(),
            identities: vec![],
            source_order: vec![],
        },
    };
    while *p.peek() != Tok::End {
        p.statement()?;
    }
    Ok(p.out)
}

impl<T: FieldElement> Parser<'_, T> {
    fn peek(&self) -> &Tok {
        &self.toks[self.at].1
    }
    fn next(&mut self) -> Tok {
        let t = self.toks[self.at].1.clone();
        if t != Tok::End {
            self.at += 1;
        }
        t
    }
    fn is(&mut self, c: char) -> bool {
        let yes = *self.peek() == Tok::Sym(c);
        if yes {
            self.at += 1;
        }
        yes
    }
    fn word(&mut self, w: &str) -> bool {
        let yes = matches!(self.peek(), Tok::Name(n) if n == w);
        if yes {
            self.at += 1;
        }
        yes
    }
    fn fail<X>(&self, what: &str) -> Res<X> {
        let (at, t) = &self.toks[self.at];
        Err(format!("{what} expected at {at}, not {t:?}"))
    }
    fn want(&mut self, c: char) -> Res<()> {
        if self.is(c) {
            Ok(())
        } else {
            self.fail(&format!("{c:?}"))
        }
    }
    fn name(&mut self) -> Res<String> {
        match self.next() {
            Tok::Name(n) => Ok(n),
            _ => {
                self.at -= 1;
                self.fail("a name")
            }
        }
    }
    /// A number known now.
    fn number(&mut self) -> Res<u64> {
        let mut x = self.number_factor()?;
        while *self.peek() == Tok::Pow {
            self.at += 1;
            let e = self.number_factor()?;
            x = u32::try_from(e).ok().and_then(|e| x.checked_pow(e)).ok_or("number too large")?;
        }
        Ok(x)
    }
    fn number_factor(&mut self) -> Res<u64> {
        match self.next() {
            Tok::Num(n) => Ok(n),
            Tok::Name(n) => self.numbers.get(&n).copied().ok_or(format!("unknown number {n}")),
            _ => {
                self.at -= 1;
                self.fail("a number")
            }
        }
    }
    fn absolute(&self, ns: Option<&str>, name: &str) -> String {
        format!("{}.{name}", ns.unwrap_or(&self.namespace))
    }
    fn column(&mut self, name: String, t: PolynomialType, length: Option<u64>) -> Res<Symbol> {
        let absolute_name = self.absolute(None, &name);
        if self.out.definitions.contains_key(&absolute_name)
            || self.out.intermediate_columns.contains_key(&absolute_name)
        {
            return Err(format!("{absolute_name} is defined twice"));
        }
        let id = self.ids[t as usize];
        self.ids[t as usize] += length.unwrap_or(1);
        self.out.source_order.push(StatementIdentifier::Definition(absolute_name.clone()));
        Ok(Symbol { id, absolute_name, kind: SymbolKind::Poly(t), length })
    }
    fn statement(&mut self) -> Res<()> {
        let start = self.toks[self.at].0;
        if self.word("let") {
            let name = self.name()?;
            if self.is(':') {
                self.name()?;
            }
            self.want('=')?;
            let v = self.number()?;
            self.numbers.insert(name, v);
        } else if self.word("namespace") {
            self.namespace = self.name()?;
            if self.is('(') {
                self.out.degree = self.number()?;
                self.want(')')?;
            }
        } else if self.word("pol") || self.word("col") {
            let t = if self.word("constant") || self.word("fixed") {
                PolynomialType::Constant
            } else if self.word("commit") || self.word("witness") {
                PolynomialType::Committed
            } else {
                let name = self.name()?;
                self.want('=')?;
                let e = self.sum()?;
                let s = self.column(name, PolynomialType::Intermediate, None)?;
                self.out.intermediate_columns.insert(s.absolute_name.clone(), (s, vec![e]));
                return self.want(';');
            };
            loop {
                let name = self.name()?;
                let mut length = None;
                if self.is('[') {
                    length = Some(self.number()?);
                    self.want(']')?;
                }
                let s = self.column(name, t, length)?;
                self.out.definitions.insert(s.absolute_name.clone(), (s, None));
                if !self.is(',') {
                    break;
                }
            }
        } else if self.word("public") {
            let name = self.name()?;
            let name = self.absolute(None, &name);
            self.want('=')?;
            let (symbol, _) = self.symbol()?;
            let SymbolKind::Poly(ptype) = symbol.kind else { return Err("a public is a column's".into()) };
            let mut array_index = None;
            if self.is('[') {
                array_index = Some(self.number()? as usize);
                self.want(']')?;
            }
            check_index(&symbol, array_index.map(|x| x as u64))?;
            self.want('(')?;
            let index = self.number()?;
            self.want(')')?;
            if index >= self.out.degree {
                return Err(format!("{name}: no row {index}"));
            }
            let d = PublicDeclaration {
                id: self.out.public_declarations.len() as u64,
                name: name.clone(),
                polynomial: PolynomialReference {
                    name: symbol.absolute_name.clone(),
                    poly_id: Some(PolyID { id: symbol.id, ptype }),
                },
                array_index,
                index,
            };
            if self.out.public_declarations.insert(name.clone(), d).is_some() {
                return Err(format!("{name} is defined twice"));
            }
            self.out.source_order.push(StatementIdentifier::PublicDeclaration(name));
        } else if self.is('[') {
            let left = self.list()?;
            if !self.word("connect") {
                return self.fail("connect");
            }
            self.want('[')?;
            let right = self.list()?;
            self.identity(start, IdentityKind::Connect, (None, left), (None, right));
        } else {
            let left = self.sum()?;
            self.want('=')?;
            let zero = *self.peek() == Tok::Num(0) && self.toks[self.at + 1].1 == Tok::Sym(';');
            let right = self.sum()?;
            let e = if zero { left } else { binary(left, AlgebraicBinaryOperator::Sub, right) };
            self.identity(start, IdentityKind::Polynomial, (Some(e), vec![]), (None, vec![]));
        }
        self.want(';')
    }
    #[allow(clippy::type_complexity)]
    fn identity(
        &mut self,
        start: usize,
        kind: IdentityKind,
        l: (Option<AlgebraicExpression<T>>, Vec<AlgebraicExpression<T>>),
        r: (Option<AlgebraicExpression<T>>, Vec<AlgebraicExpression<T>>),
    ) {
        let k = self.out.identities.len();
        let source = SourceRef {
            file_name: self.file.map(Arc::from),
            file_contents: Some(self.text.clone()),
            start,
            end: self.toks[self.at].0,
        };
        self.out.identities.push(Identity {
            id: k as u64,
            kind,
            source,
            left: SelectedExpressions { selector: l.0, expressions: l.1 },
            right: SelectedExpressions { selector: r.0, expressions: r.1 },
        });
        self.out.source_order.push(StatementIdentifier::Identity(k));
    }
    fn list(&mut self) -> Res<Vec<AlgebraicExpression<T>>> {
        let mut v = vec![];
        while !self.is(']') {
            v.push(self.sum()?);
            if !self.is(',') {
                self.want(']')?;
                break;
            }
        }
        Ok(v)
    }
    fn sum(&mut self) -> Res<AlgebraicExpression<T>> {
        let mut e = self.product()?;
        loop {
            let op = if self.is('+') {
                AlgebraicBinaryOperator::Add
            } else if self.is('-') {
                AlgebraicBinaryOperator::Sub
            } else {
                return Ok(e);
            };
            e = binary(e, op, self.product()?);
        }
    }
    fn product(&mut self) -> Res<AlgebraicExpression<T>> {
        let mut e = self.factor()?;
        while self.is('*') {
            e = binary(e, AlgebraicBinaryOperator::Mul, self.factor()?);
        }
        Ok(e)
    }
    fn factor(&mut self) -> Res<AlgebraicExpression<T>> {
        if self.is('-') {
            return Ok(AlgebraicExpression::UnaryOperation(AlgebraicUnaryOperation {
                op: AlgebraicUnaryOperator::Minus,
                expr: Box::new(self.factor()?),
            }));
        }
        if self.is('(') {
            let e = self.sum()?;
            self.want(')')?;
            return Ok(e);
        }
        if self.is(':') {
            let name = self.name()?;
            let name = self.absolute(None, &name);
            if !self.out.public_declarations.contains_key(&name) {
                return Err(format!("unknown public {name}"));
            }
            return Ok(AlgebraicExpression::PublicReference(name));
        }
        if let Tok::Num(n) = *self.peek() {
            self.at += 1;
            return Ok(AlgebraicExpression::Number(T::of(n % P)));
        }
        let (symbol, name) = self.symbol()?;
        let SymbolKind::Poly(ptype) = symbol.kind else { return self.fail("a column") };
        let mut index = None;
        if self.is('[') {
            index = Some(self.number()?);
            self.want(']')?;
        }
        check_index(&symbol, index)?;
        let next = self.is('\'');
        if next && ptype == PolynomialType::Intermediate {
            return Err(format!("{name}': the next row of an intermediate column"));
        }
        let poly_id = PolyID { id: symbol.id + index.unwrap_or(0), ptype };
        Ok(AlgebraicExpression::Reference(AlgebraicReference { name, poly_id, next }))
    }
    fn symbol(&mut self) -> Res<(Symbol, String)> {
        let mut name = self.name()?;
        let mut ns = None;
        if self.is('.') {
            ns = Some(name);
            name = self.name()?;
        }
        let name = self.absolute(ns.as_deref(), &name);
        let found = self
            .out
            .definitions
            .get(&name)
            .map(|d| &d.0)
            .or_else(|| self.out.intermediate_columns.get(&name).map(|d| &d.0));
        match found {
            Some(s) => Ok((s.clone(), name)),
            None => Err(format!("unknown column {name}")),
        }
    }
}
fn check_index(s: &Symbol, index: Option<u64>) -> Res<()> {
    match (s.length, index) {
        (None, None) => Ok(()),
        (Some(n), Some(i)) if i < n => Ok(()),
        (n, i) => Err(format!("{}: index {i:?} of length {n:?}", s.absolute_name)),
    }
}
fn binary<T>(
    left: AlgebraicExpression<T>,
    op: AlgebraicBinaryOperator,
    right: AlgebraicExpression<T>,
) -> AlgebraicExpression<T> {
    AlgebraicExpression::BinaryOperation(AlgebraicBinaryOperation {
        left: Box::new(left),
        op,
        right: Box::new(right),
    })
}
