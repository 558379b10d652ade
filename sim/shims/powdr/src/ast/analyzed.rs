use powdr_parser_util::SourceRef;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PolynomialType {
    Committed,
    Constant,
    Intermediate,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SymbolKind {
    Poly(PolynomialType),
    Other(),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct PolyID {
    pub id: u64,
    pub ptype: PolynomialType,
}
#[derive(Clone, Debug)]
pub struct Symbol {
    pub id: u64,
    pub absolute_name: String,
    pub kind: SymbolKind,
    pub length: Option<u64>,
}
impl Symbol {
    pub fn is_array(&self) -> bool {
        self.length.is_some()
    }
    pub fn array_elements(&self) -> impl Iterator<Item = (String, PolyID)> + '_ {
        let SymbolKind::Poly(ptype) = self.kind else { panic!("not a column") };
        (0..self.length.unwrap_or(1)).map(move |i| {
            let name = match self.length {
                Some(_) => format!("{}[{i}]", self.absolute_name),
                None => self.absolute_name.clone(),
            };
            (name, PolyID { id: self.id + i, ptype })
        })
    }
}
#[derive(Clone, Debug)]
pub struct AlgebraicReference {
    pub name: String,
    pub poly_id: PolyID,
    pub next: bool,
}
#[derive(Clone, Debug)]
pub struct Challenge {
    pub id: u64,
    pub stage: u32,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AlgebraicBinaryOperator {
    Add,
    Sub,
    Mul,
    Pow,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum AlgebraicUnaryOperator {
    Minus,
}
#[derive(Clone, Debug)]
pub struct AlgebraicBinaryOperation<T> {
    pub left: Box<AlgebraicExpression<T>>,
    pub op: AlgebraicBinaryOperator,
    pub right: Box<AlgebraicExpression<T>>,
}
#[derive(Clone, Debug)]
pub struct AlgebraicUnaryOperation<T> {
    pub op: AlgebraicUnaryOperator,
    pub expr: Box<AlgebraicExpression<T>>,
}
#[derive(Clone, Debug)]
pub enum AlgebraicExpression<T> {
    Reference(AlgebraicReference),
    PublicReference(String),
    Challenge(Challenge),
    Number(T),
    BinaryOperation(AlgebraicBinaryOperation<T>),
    UnaryOperation(AlgebraicUnaryOperation<T>),
}
#[derive(Clone, Debug)]
pub struct PolynomialReference {
    pub name: String,
    pub poly_id: Option<PolyID>,
}
#[derive(Clone, Debug)]
pub struct PublicDeclaration {
    pub id: u64,
    pub name: String,
    pub polynomial: PolynomialReference,
    pub array_index: Option<usize>,
    pub index: u64,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IdentityKind {
    Polynomial,
    Plookup,
    Permutation,
    Connect,
}
#[derive(Clone, Debug)]
pub struct SelectedExpressions<E> {
    pub selector: Option<E>,
    pub expressions: Vec<E>,
}
#[derive(Clone, Debug)]
pub struct Identity<S> {
    pub id: u64,
    pub kind: IdentityKind,
    pub source: SourceRef,
    pub left: S,
    pub right: S,
}
#[derive(Clone, Debug)]
pub enum StatementIdentifier {
    Definition(String),
    PublicDeclaration(String),
    Identity(usize),
}
#[derive(Clone, Debug, Default)]
pub struct Analyzed<T> {
    pub degree: u64,
    pub definitions: HashMap<String, (Symbol, Option<()>)>,
    pub intermediate_columns: HashMap<String, (Symbol, Vec<AlgebraicExpression<T>>)>,
    pub public_declarations: HashMap<String, PublicDeclaration>,
    pub identities: Vec<Identity<SelectedExpressions<AlgebraicExpression<T>>>>,
    pub source_order: Vec<StatementIdentifier>,
}
impl<T> Analyzed<T> {
    pub fn degree(&self) -> u64 {
        self.degree
    }
    fn count(&self, t: PolynomialType) -> usize {
        self.definitions
            .values()
            .map(|d| &d.0)
            .filter(|s| s.kind == SymbolKind::Poly(t))
            .map(|s| s.length.unwrap_or(1) as usize)
            .sum()
    }
    pub fn commitment_count(&self) -> usize {
        self.count(PolynomialType::Committed)
    }
    pub fn constant_count(&self) -> usize {
        self.count(PolynomialType::Constant)
    }
    pub fn intermediate_count(&self) -> usize {
        self.intermediate_columns.values().map(|s| s.0.length.unwrap_or(1) as usize).sum()
    }
}
