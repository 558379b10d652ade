//! Random small arithmetisations with a valid trace, and a direct evaluator that says whether a
//! trace satisfies one: the reference for what the prover may prove and the verifier accept.
use crate::fft::{addp, mulp, powp, root, subp};
use crate::util::*;
use serde_json::{json, Map, Value};
use simcore::Rng;
use simharness::*;
use starky::polsarray::{PolKind, PolsArray};
use starky::types::{StarkStruct, PIL};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum E {
    Cm(usize, bool),
    Const(usize, bool),
    Exp(usize, bool),
    Num(u64),
    Public(usize),
    Add(Box<E>, Box<E>),
    Sub(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Neg(Box<E>),
}
use E::*;
pub fn add(a: E, b: E) -> E {
    Add(Box::new(a), Box::new(b))
}
pub fn sub(a: E, b: E) -> E {
    Sub(Box::new(a), Box::new(b))
}
pub fn mul(a: E, b: E) -> E {
    Mul(Box::new(a), Box::new(b))
}

#[derive(Clone, Debug)]
pub struct Lookup {
    pub f: Vec<usize>,
    pub t: Vec<usize>,
    pub sel_f: Option<usize>,
    pub sel_t: Option<usize>,
}
#[derive(Clone, Debug)]
pub struct Public {
    /// a committed cell, or the value of an expression at a row
    pub cell: Option<usize>,
    pub exp: usize,
    pub row: usize,
}
#[derive(Clone, Debug)]
pub struct Air {
    pub bits: usize,
    pub cm: Vec<Vec<u64>>,
    pub cons: Vec<Vec<u64>>,
    pub exps: Vec<E>,
    pub identities: Vec<usize>,
    pub lookups: Vec<Lookup>,
    pub perms: Vec<Lookup>,
    pub conns: Vec<(Vec<usize>, Vec<usize>)>,
    pub publics: Vec<Public>,
    /// committed columns that hold 0/1 selectors
    pub flags: BTreeSet<usize>,
    pub gadgets: Vec<&'static str>,
}

impl Air {
    pub fn n(&self) -> usize {
        1 << self.bits
    }
    fn deg(&self, e: &E) -> usize {
        match e {
            Cm(..) | Const(..) => 1,
            Exp(i, _) => self.deg(&self.exps[*i]),
            Num(_) | Public(_) => 0,
            Add(a, b) | Sub(a, b) => self.deg(a).max(self.deg(b)),
            Mul(a, b) => self.deg(a) + self.deg(b),
            Neg(a) => self.deg(a),
        }
    }
    /// degree when every named sub-expression may be replaced by a column
    fn split_deg(e: &E) -> usize {
        match e {
            Cm(..) | Const(..) | Exp(..) => 1,
            Num(_) | Public(_) => 0,
            Add(a, b) | Sub(a, b) => Self::split_deg(a).max(Self::split_deg(b)),
            Mul(a, b) => Self::split_deg(a) + Self::split_deg(b),
            Neg(a) => Self::split_deg(a),
        }
    }
    /// (needed at least, enough in any case): degrees of the constraints
    pub fn degrees(&self) -> (usize, usize) {
        let lo = self.exps.iter().map(Self::split_deg).max().unwrap_or(1);
        let hi = self.exps.iter().map(|e| self.deg(e)).max().unwrap_or(1);
        (lo, hi)
    }
    pub fn publics_values(&self) -> Vec<u64> {
        let mut out = vec![];
        for p in &self.publics {
            let v = match p.cell {
                Some(c) => self.cm[c][p.row],
                None => self.eval(&Exp(p.exp, false), p.row, &out),
            };
            out.push(v);
        }
        out
    }
    pub fn eval(&self, e: &E, row: usize, publics: &[u64]) -> u64 {
        let at = |next: &bool| if *next { (row + 1) % self.n() } else { row };
        match e {
            Cm(c, nx) => self.cm[*c][at(nx)],
            Const(c, nx) => self.cons[*c][at(nx)],
            Exp(i, nx) => self.eval(&self.exps[*i], at(nx), publics),
            Num(x) => *x,
            Public(i) => publics[*i],
            Add(a, b) => addp(self.eval(a, row, publics), self.eval(b, row, publics)),
            Sub(a, b) => subp(self.eval(a, row, publics), self.eval(b, row, publics)),
            Mul(a, b) => mulp(self.eval(a, row, publics), self.eval(b, row, publics)),
            Neg(a) => subp(0, self.eval(a, row, publics)),
        }
    }
    /// Why the trace does not satisfy the constraints with these public values.
    pub fn broken(&self, publics: &[u64]) -> Option<String> {
        let n = self.n();
        let at = |ids: &[usize], row: usize| -> Vec<u64> {
            ids.iter().map(|i| self.eval(&self.exps[*i], row, publics)).collect()
        };
        let on = |sel: Option<usize>, row: usize| sel.map_or(1, |s| at(&[s], row)[0]);
        for i in &self.identities {
            for row in 0..n {
                if self.eval(&self.exps[*i], row, publics) != 0 {
                    return Some(format!("identity {i} at row {row}"));
                }
            }
        }
        for (k, l) in self.lookups.iter().enumerate() {
            let table: BTreeSet<Vec<u64>> =
                (0..n).filter(|r| on(l.sel_t, *r) == 1).map(|r| at(&l.t, r)).collect();
            if let Some(r) = (0..n).find(|r| on(l.sel_f, *r) == 1 && !table.contains(&at(&l.f, *r))) {
                return Some(format!("lookup {k} at row {r}"));
            }
        }
        for (k, l) in self.perms.iter().enumerate() {
            let bag = |ids: &[usize], sel: Option<usize>| {
                let mut v: Vec<Vec<u64>> =
                    (0..n).filter(|r| on(sel, *r) == 1).map(|r| at(ids, r)).collect();
                v.sort();
                v
            };
            if bag(&l.f, l.sel_f) != bag(&l.t, l.sel_t) {
                return Some(format!("permutation {k}"));
            }
        }
        for (k, (pols, cons)) in self.conns.iter().enumerate() {
            let mut place = BTreeMap::new();
            for j in 0..pols.len() {
                let mut id = conn_k(j);
                for row in 0..n {
                    place.insert(id, (j, row));
                    id = mulp(id, root(self.bits));
                }
            }
            for j in 0..pols.len() {
                for row in 0..n {
                    let to = place[&at(&[cons[j]], row)[0]];
                    if at(&[pols[j]], row) != at(&[pols[to.0]], to.1) {
                        return Some(format!("connection {k} at {j},{row}"));
                    }
                }
            }
        }
        None
    }

    fn json_exp(&self, e: &E) -> Value {
        let leaf = |op: &str, id: usize, nx: bool| json!({"op": op, "deg": 1, "id": id, "next": nx});
        match e {
            Cm(i, nx) => leaf("cm", *i, *nx),
            Const(i, nx) => leaf("const", *i, *nx),
            Exp(i, nx) => json!({"op": "exp", "deg": self.deg(e), "id": i, "next": nx}),
            Num(x) => json!({"op": "number", "deg": 0, "value": x.to_string()}),
            Public(i) => json!({"op": "public", "deg": 0, "id": i}),
            Neg(a) => json!({"op": "neg", "deg": self.deg(e), "values": [self.json_exp(a)]}),
            Add(a, b) | Sub(a, b) | Mul(a, b) => {
                let op = match e {
                    Add(..) => "add",
                    Sub(..) => "sub",
                    _ => "mul",
                };
                json!({"op": op, "deg": self.deg(e), "values": [self.json_exp(a), self.json_exp(b)]})
            }
        }
    }
    pub fn pil_json(&self) -> Value {
        let n = self.n();
        let mut refs = Map::new();
        let mut add_ref = |name: String, t: &str, id: usize| {
            refs.insert(name, json!({"type": t, "id": id, "polDeg": n, "isArray": false}));
        };
        for i in 0..self.cm.len() {
            add_ref(format!("Main.c{i:03}"), "cmP", i);
        }
        for i in 0..self.cons.len() {
            add_ref(if i == 0 { "Global.L1".into() } else { format!("Main.K{i:03}") }, "constP", i);
        }
        // expressions used by name and of degree 2 or more are intermediate polynomials
        let mut used = BTreeSet::new();
        fn uses(e: &E, out: &mut BTreeSet<usize>) {
            match e {
                Exp(i, _) => {
                    out.insert(*i);
                }
                Add(a, b) | Sub(a, b) | Mul(a, b) => {
                    uses(a, out);
                    uses(b, out);
                }
                Neg(a) => uses(a, out),
                _ => {}
            }
        }
        for e in &self.exps {
            uses(e, &mut used);
        }
        for l in self.lookups.iter().chain(&self.perms) {
            used.extend(l.f.iter().chain(&l.t));
        }
        let mut n_q = 0;
        let mut n_im = 0;
        let mut exps = vec![];
        for (i, e) in self.exps.iter().enumerate() {
            let mut j = self.json_exp(e);
            if used.contains(&i) {
                if self.deg(e) > 1 {
                    j["idQ"] = json!(n_q);
                    n_q += 1;
                    j["deg"] = json!(1);
                }
                n_im += 1;
            }
            exps.push(j);
        }
        let ids = |ls: &[Lookup]| -> Vec<Value> {
            ls.iter()
                .map(|l| {
                    json!({"f": l.f, "t": l.t, "selF": l.sel_f, "selT": l.sel_t, "fileName": "a.pil", "line": 1})
                })
                .collect()
        };
        json!({
            "nCommitments": self.cm.len(), "nQ": n_q, "nIm": n_im, "nConstants": self.cons.len(),
            "publics": self.publics.iter().enumerate().map(|(i, p)| json!({
                "polType": if p.cell.is_some() { "cmP" } else { "imP" },
                "polId": p.cell.unwrap_or(p.exp), "idx": p.row, "id": i, "name": format!("p{i}"),
            })).collect::<Vec<_>>(),
            "references": refs,
            "expressions": exps,
            "polIdentities": self.identities.iter()
                .map(|e| json!({"e": e, "fileName": "a.pil", "line": 1})).collect::<Vec<_>>(),
            "plookupIdentities": ids(&self.lookups),
            "permutationIdentities": ids(&self.perms),
            "connectionIdentities": self.conns.iter()
                .map(|(p, c)| json!({"pols": p, "connections": c, "fileName": "a.pil", "line": 1}))
                .collect::<Vec<_>>(),
        })
    }
    pub fn pil(&self) -> PIL {
        serde_json::from_value(self.pil_json()).expect("pil")
    }
    fn array(&self, kind: PolKind, cols: &[Vec<u64>]) -> PolsArray {
        let mut a = PolsArray::new(&self.pil(), kind);
        for (i, c) in cols.iter().enumerate() {
            for (j, x) in c.iter().enumerate() {
                a.array[i][j] = FGL::from(*x);
            }
        }
        a
    }
    pub fn cm_pols(&self) -> PolsArray {
        self.array(PolKind::Commit, &self.cm)
    }
    pub fn const_pols(&self) -> PolsArray {
        self.array(PolKind::Constant, &self.cons)
    }

    fn col(&mut self, v: Vec<u64>) -> usize {
        self.cm.push(v);
        self.cm.len() - 1
    }
    fn con(&mut self, v: Vec<u64>) -> usize {
        self.cons.push(v);
        self.cons.len() - 1
    }
    fn exp(&mut self, e: E) -> usize {
        self.exps.push(e);
        self.exps.len() - 1
    }
    fn must(&mut self, e: E) {
        let i = self.exp(e);
        self.identities.push(i);
    }
    fn last(&mut self) -> usize {
        let n = self.n();
        let mut v = vec![0; n];
        v[n - 1] = 1;
        self.con(v)
    }
}
fn conn_k(j: usize) -> u64 {
    powp(12275445934081160404, j as u64)
}
fn val(r: &mut Rng) -> u64 {
    elem(r).as_int()
}
fn vals(n: usize, r: &mut Rng) -> Vec<u64> {
    (0..n).map(|_| val(r)).collect()
}

// ------------------------------------------------------------------ gadgets
/// two-column recurrence with boundary values as publics
fn recurrence(a: &mut Air, r: &mut Rng) {
    let n = a.n();
    let (mut x, mut y) = (vec![val(r)], vec![val(r)]);
    for i in 1..n {
        x.push(addp(mulp(x[i - 1], x[i - 1]), mulp(y[i - 1], y[i - 1])));
        y.push(x[i - 1]);
    }
    let (x, y) = (a.col(x), a.col(y));
    let last = a.last();
    let not_last = || sub(Num(1), Const(last, false));
    let step = a.exp(add(mul(Cm(x, false), Cm(x, false)), mul(Cm(y, false), Cm(y, false))));
    a.must(mul(sub(Cm(x, true), Exp(step, false)), not_last()));
    a.must(mul(sub(Cm(y, true), Cm(x, false)), not_last()));
    // publics, in any order: first x, first y (as an expression), last x, the step at some row
    let first_y = a.exp(Cm(y, false));
    let mut want = vec![0, 1, 2, 3];
    for i in (1..4).rev() {
        let j = r.below(i as u64 + 1) as usize;
        want.swap(i, j);
    }
    want.truncate(1 + r.below(4) as usize);
    for w in want {
        let id = a.publics.len();
        match w {
            0 => {
                a.publics.push(Public { cell: Some(x), exp: 0, row: 0 });
                a.must(mul(Const(0, false), sub(Cm(x, false), E::Public(id))));
            }
            1 => {
                a.publics.push(Public { cell: None, exp: first_y, row: 0 });
                a.must(mul(Const(0, false), sub(Cm(y, false), E::Public(id))));
            }
            2 => {
                a.publics.push(Public { cell: Some(x), exp: 0, row: n - 1 });
                a.must(mul(Const(last, false), sub(Cm(x, false), E::Public(id))));
            }
            _ => {
                let row = r.below(n as u64 - 1) as usize;
                let mut at = vec![0; n];
                at[row] = 1;
                let at = a.con(at);
                a.publics.push(Public { cell: None, exp: step, row });
                a.must(mul(Const(at, false), sub(Cm(x, true), E::Public(id))));
            }
        }
    }
}
fn poly(a: &Air, depth: usize, r: &mut Rng) -> E {
    if depth == 0 {
        let nx = r.below(3) == 0;
        return match r.below(6) {
            0 => Num(val(r)),
            1 => Const(r.below(a.cons.len() as u64) as usize, nx),
            _ => Cm(r.below(a.cm.len() as u64) as usize, nx),
        };
    }
    let (x, y) = (poly(a, depth - 1, r), poly(a, r.below(depth as u64) as usize, r));
    match r.below(7) {
        0 => add(x, y),
        1 => sub(x, y),
        2 => Neg(Box::new(x)),
        _ => mul(x, y),
    }
}
/// z = polynomial in earlier columns, of this row and the next
fn algebra(a: &mut Air, r: &mut Rng) {
    let n = a.n();
    if a.cm.is_empty() || r.below(2) == 0 {
        let v = vals(n, r);
        a.col(v);
    }
    if r.below(2) == 0 {
        let v = vals(n, r);
        a.con(v);
    }
    let mut e = poly(a, 1 + r.below(3) as usize, r);
    if r.below(3) == 0 {
        let inner = a.exp(e);
        e = add(mul(Exp(inner, false), poly(a, 1, r)), Num(r.below(9)));
    }
    if a.deg(&e) == 0 {
        e = add(e, Cm(0, false));
    }
    let publics = a.publics_values();
    let z: Vec<u64> = (0..n).map(|i| a.eval(&e, i, &publics)).collect();
    let z = a.col(z);
    a.must(sub(Cm(z, false), e));
}
fn selector(a: &mut Air, committed: bool, v: Vec<u64>) -> usize {
    if committed {
        let c = a.col(v);
        a.flags.insert(c);
        a.must(mul(Cm(c, false), sub(Cm(c, false), Num(1))));
        a.exp(Cm(c, false))
    } else {
        let c = a.con(v);
        a.exp(Const(c, false))
    }
}
fn lookup(a: &mut Air, r: &mut Rng) {
    let n = a.n();
    let width = 1 + r.below(3) as usize;
    let sel_t = r.below(2) == 0;
    let sel_f = r.below(2) == 0;
    let small = r.below(2) == 0;
    let table: Vec<Vec<u64>> = (0..n)
        .map(|_| (0..width).map(|_| if small { r.below(4) } else { val(r) }).collect())
        .collect();
    let on_t: Vec<u64> = (0..n).map(|i| (i == 3 || !sel_t || r.below(3) > 0) as u64).collect();
    let on_f: Vec<u64> = (0..n).map(|_| (!sel_f || r.below(2) > 0) as u64).collect();
    let rows: Vec<usize> = (0..n).filter(|i| on_t[*i] == 1).collect();
    let next = r.below(4) == 0;
    let mut f = vec![vec![0; n]; width];
    for i in 0..n {
        let j = rows[r.below(rows.len() as u64) as usize];
        for k in 0..width {
            // with `next`, the value read at row i is the one stored at row i + 1
            let at = if next && k == 0 { (i + 1) % n } else { i };
            f[k][at] = if on_f[i] == 1 { table[j][k] } else { val(r) };
        }
    }
    let committed_table = r.below(2) == 0;
    let mut t = vec![];
    for k in 0..width {
        let v: Vec<u64> = table.iter().map(|x| x[k]).collect();
        let e = if committed_table { Cm(a.col(v), false) } else { Const(a.con(v), false) };
        t.push(a.exp(e));
    }
    let mut fs = vec![];
    for (k, v) in f.into_iter().enumerate() {
        let c = a.col(v);
        fs.push(a.exp(Cm(c, next && k == 0)));
    }
    let sel_f = if sel_f { Some(selector(a, r.below(2) == 0, on_f)) } else { None };
    let sel_t = if sel_t { Some(selector(a, r.below(2) == 0, on_t)) } else { None };
    a.lookups.push(Lookup { f: fs, t, sel_f, sel_t });
}
fn permutation(a: &mut Air, r: &mut Rng) {
    let n = a.n();
    let width = 1 + r.below(3) as usize;
    let sel = r.below(3) == 0;
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let on_f: Vec<u64> = (0..n).map(|_| (!sel || r.below(2) > 0) as u64).collect();
    let on_t: Vec<u64> = order.iter().map(|j| on_f[*j]).collect();
    let mut f = vec![];
    let mut t = vec![];
    for _ in 0..width {
        let v = vals(n, r);
        let w: Vec<u64> = order
            .iter()
            .map(|j| if on_f[*j] == 1 { v[*j] } else { val(r) })
            .collect();
        let (c, d) = (a.col(v), a.col(w));
        f.push(a.exp(Cm(c, false)));
        t.push(a.exp(Cm(d, false)));
    }
    let (mut sel_f, mut sel_t) = (None, None);
    if sel {
        sel_f = Some(selector(a, r.below(2) == 0, on_f));
        sel_t = Some(selector(a, r.below(2) == 0, on_t));
    }
    a.perms.push(Lookup { f, t, sel_f, sel_t });
}
fn connection(a: &mut Air, r: &mut Rng) {
    let n = a.n();
    let width = 2 + r.below(3) as usize;
    let places = n * width;
    // a random permutation of the cells made of cycles over which the values are constant
    let mut to: Vec<usize> = (0..places).collect();
    let mut v = vals(places, r);
    for _ in 0..places {
        let (i, j) = (r.below(places as u64) as usize, r.below(places as u64) as usize);
        if v[i] == v[j] || r.below(2) == 0 {
            // joins (or splits) the cycles of i and j
            to.swap(i, j);
            let mut k = to[i];
            while k != i {
                v[k] = v[i];
                k = to[k];
            }
            let mut k = to[j];
            while k != j {
                v[k] = v[j];
                k = to[k];
            }
        }
    }
    let id = |p: usize| mulp(conn_k(p / n), powp(root(a.bits), (p % n) as u64));
    let ids: Vec<u64> = to.iter().map(|p| id(*p)).collect();
    let (mut pols, mut cons) = (vec![], vec![]);
    for k in 0..width {
        let c = a.col(v[k * n..(k + 1) * n].to_vec());
        pols.push(a.exp(Cm(c, false)));
    }
    for k in 0..width {
        let c = a.con(ids[k * n..(k + 1) * n].to_vec());
        cons.push(a.exp(Const(c, false)));
    }
    a.conns.push((pols, cons));
}

/// The same number, written as an expression of numbers and public values.
fn spelling(x: u64, publics: &[u64], depth: usize, r: &mut Rng) -> E {
    if depth == 0 {
        return Num(x);
    }
    let d = depth - 1;
    let v = val(r);
    let i = r.below(publics.len().max(1) as u64) as usize;
    let (other, value) = if publics.is_empty() || r.below(2) == 0 {
        (spelling(v, publics, d, r), v)
    } else {
        (E::Public(i), publics[i])
    };
    match r.below(5) {
        0 => add(other, spelling(subp(x, value), publics, d, r)),
        1 => sub(other, spelling(subp(value, x), publics, d, r)),
        2 => sub(spelling(addp(x, value), publics, d, r), other),
        3 => {
            let w = val(r);
            let rest = subp(x, mulp(value, w));
            add(mul(other, spelling(w, publics, d, r)), spelling(rest, publics, d, r))
        }
        _ if value != 0 => mul(other, spelling(mulp(x, powp(value, GLP - 2)), publics, d, r)),
        _ => add(spelling(x, publics, d, r), other),
    }
}
impl Air {
    /// Writes the numbers in its expressions as sums and products: the same constraints.
    pub fn respell(&mut self, r: &mut Rng) {
        fn walk(e: &mut E, publics: &[u64], r: &mut Rng) {
            match e {
                Add(a, b) | Sub(a, b) | Mul(a, b) => {
                    for e in [a, b] {
                        match **e {
                            Num(x) if r.below(2) == 0 => {
                                let depth = 1 + r.below(2) as usize;
                                **e = spelling(x, publics, depth, r)
                            }
                            _ => walk(e, publics, r),
                        }
                    }
                }
                Neg(a) => walk(a, publics, r),
                _ => (),
            }
        }
        let publics = self.publics_values();
        // a public value may be that of an expression
        let publics = if self.publics.iter().all(|p| p.cell.is_some()) { publics } else { vec![] };
        for e in &mut self.exps {
            walk(e, &publics, r);
        }
    }
}
pub fn generate(bits: usize, max_gadgets: usize) -> Air {
    let kinds: Vec<usize> = (0..1 + pick(max_gadgets)).map(|_| pick(5)).collect();
    generate_of(bits, &kinds)
}
pub fn generate_of(bits: usize, kinds: &[usize]) -> Air {
    let n = 1 << bits;
    let mut a = Air {
        bits,
        cm: vec![],
        cons: vec![],
        exps: vec![],
        identities: vec![],
        lookups: vec![],
        perms: vec![],
        conns: vec![],
        publics: vec![],
        flags: BTreeSet::new(),
        gadgets: vec![],
    };
    let mut first = vec![0; n];
    first[0] = 1;
    a.con(first);
    for &k in kinds {
        let mut r = pick_rng();
        match k {
            0 => recurrence(&mut a, &mut r),
            1 => algebra(&mut a, &mut r),
            2 => lookup(&mut a, &mut r),
            3 => permutation(&mut a, &mut r),
            _ => connection(&mut a, &mut r),
        }
        a.gadgets.push(["recurrence", "algebra", "lookup", "permutation", "connection"][k]);
    }
    a
}

/// Folding and query parameters under which a lucky forgery has probability below 2^-56.
pub fn stark_struct(a: &Air, hash: &str) -> StarkStruct {
    let bits = a.bits;
    let mut ext = bits + 1 + pick(3);
    while (1 << (ext - bits)) + 1 < a.degrees().0 {
        ext += 1;
    }
    let mut steps = vec![ext];
    let mut cur = ext;
    while cur > 2 && (steps.len() < 2 || pick(2) == 0) {
        cur -= 1 + pick(cur.min(4) - 1);
        steps.push(cur);
    }
    let s = json!({
        "nBits": bits, "nBitsExt": ext, "nQueries": 56 / ext + 1 + pick(3),
        "verificationHashType": hash,
        "steps": steps.iter().map(|b| json!({"nBits": b})).collect::<Vec<_>>(),
    });
    serde_json::from_value(s).expect("stark struct")
}
