//! Compression: a circuit over Goldilocks becomes twelve columns, constraints on them and a proof.
use crate::circuit::{encode, Spec, Terms, Wrong};
use crate::fields::*;
use crate::rounds::ROUNDS;
use crate::wasm::{compile, Program, Signal, Wire};
use ff::Field;
use powdr::ast::analyzed as ast;
use powdr::number::GoldilocksField;
use simcore::{simfs, Rng};
use simharness::disk::*;
use simharness::*;
use starky::types::{load_json, Expression, PIL};
use std::collections::{BTreeMap, HashMap};

// ------------------------------------------------------------------ circuits
type Ext = [Gl; 3];
/// Products in F[x] / (x^3 - x - 1).
fn emul(a: Ext, b: Ext) -> Ext {
    let mut t = [Gl::ZERO; 5];
    for i in 0..3 {
        for j in 0..3 {
            t[i + j] += a[i] * b[j];
        }
    }
    // x^3 = x + 1, x^4 = x^2 + x
    [t[0] + t[3], t[1] + t[3] + t[4], t[2] + t[4]]
}
fn eadd(a: Ext, b: Ext) -> Ext {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn escale(a: Ext, k: Gl) -> Ext {
    a.map(|x| x * k)
}
fn ext(v: &[Gl]) -> Ext {
    [v[0], v[1], v[2]]
}
fn sbox(x: Gl) -> Gl {
    let x2 = x * x;
    x2 * x2 * x2 * x
}
fn round(st: &[Gl], k: usize) -> Vec<Gl> {
    const M: [u64; 12] = [17, 15, 41, 16, 2, 28, 13, 13, 39, 18, 34, 20];
    let full = !(4..26).contains(&k);
    let s: Vec<Gl> = (0..12)
        .map(|i| {
            let x = st[i] + Gl(ROUNDS[k][i]);
            if full || i == 0 {
                sbox(x)
            } else {
                x
            }
        })
        .collect();
    (0..12)
        .map(|i| {
            let mut y: Gl = (0..12).map(|j| s[j] * Gl(M[(j + 12 - i) % 12])).sum();
            if i == 0 {
                y += s[0] * Gl(8);
            }
            y
        })
        .collect()
}
/// Four points of a transform, or two pairs of one: the parameters are the first root, the step
/// between the pairs' roots, a factor and how many points at a time.
fn fft4(p: &[Gl], x: [Ext; 4]) -> [Ext; 4] {
    let (w, inc, scale) = (p[0], p[1], p[2]);
    let sub = |a: Ext, b: Ext| eadd(a, escale(b, -Gl::ONE));
    let out = if p[3] == Gl(4) {
        let w2 = w * w;
        let (a, b) = (eadd(x[0], escale(x[1], w2)), sub(x[0], escale(x[1], w2)));
        let (c, d) = (eadd(x[2], escale(x[3], w2)), sub(x[2], escale(x[3], w2)));
        [
            eadd(a, escale(c, w)),
            eadd(b, escale(d, w * inc)),
            sub(a, escale(c, w)),
            sub(b, escale(d, w * inc)),
        ]
    } else {
        let (a, b) = (escale(x[1], w), escale(x[3], w * inc));
        [eadd(x[0], a), sub(x[0], a), eadd(x[2], b), sub(x[2], b)]
    };
    out.map(|e| escale(e, scale))
}
/// What a gate says its last wires hold, given the others.
fn gate_ok(name: &str, params: &[Gl], v: &[Gl]) -> bool {
    match name {
        "CMulAdd" => eadd(emul(ext(v), ext(&v[3..])), ext(&v[6..]))[..] == v[9..12],
        "Poseidon12" => (0..30).all(|k| round(&v[12 * k..12 * k + 12], k)[..] == v[12 * k + 12..12 * k + 24]),
        "EvPol4" => {
            let x = ext(&v[15..]);
            let mut acc = ext(&v[12..]);
            for k in (0..4).rev() {
                acc = eadd(emul(acc, x), ext(&v[3 * k..]));
            }
            acc[..] == v[18..21]
        }
        "FFT4" => {
            let out = fft4(params, [ext(v), ext(&v[3..]), ext(&v[6..]), ext(&v[9..])]);
            out.concat()[..] == v[12..24]
        }
        _ => panic!("gate {name}"),
    }
}
fn gate_outputs(name: &str, params: &[Gl], v: &[Gl]) -> Vec<Gl> {
    match name {
        "CMulAdd" => eadd(emul(ext(v), ext(&v[3..])), ext(&v[6..])).to_vec(),
        "Poseidon12" => {
            let mut st = v.to_vec();
            let mut all = vec![];
            for k in 0..30 {
                st = round(&st, k);
                all.extend(st.clone());
            }
            all
        }
        "EvPol4" => {
            let mut acc = ext(&v[12..]);
            for k in (0..4).rev() {
                acc = eadd(emul(acc, ext(&v[15..])), ext(&v[3 * k..]));
            }
            acc.to_vec()
        }
        _ => fft4(params, [ext(v), ext(&v[3..]), ext(&v[6..]), ext(&v[9..])]).concat(),
    }
}
const GATES: [(&str, usize); 4] = [("CMulAdd", 9), ("Poseidon12", 12), ("EvPol4", 18), ("FFT4", 12)];

fn lc(t: &Terms<Gl>, w: &[Gl]) -> Gl {
    t.iter().map(|(i, c)| *c * w[*i]).sum()
}
/// The first statement of the circuit this assignment breaks.
fn broken(s: &Spec<Gl>, w: &[Gl]) -> Option<String> {
    for (i, c) in s.constraints.iter().enumerate() {
        if lc(&c[0], w) * lc(&c[1], w) != lc(&c[2], w) {
            return Some(format!("constraint {i}"));
        }
    }
    for (i, (id, sig)) in s.uses.iter().enumerate() {
        let (name, p) = &s.gates[*id as usize];
        let v: Vec<Gl> = sig.iter().map(|x| w[*x as usize]).collect();
        if !gate_ok(name, p, &v) {
            return Some(format!("gate {i} ({name})"));
        }
    }
    None
}

struct Circ {
    spec: Spec<Gl>,
    w: Vec<Gl>,
}
fn coef(r: &mut Rng, palette: bool) -> Gl {
    if palette {
        return [Gl::ONE, -Gl::ONE, Gl(2)][r.below(3) as usize];
    }
    loop {
        let c: Gl = some(r);
        // a listed coefficient may be zero, though rarely
        if c != Gl::ZERO || r.below(9) == 0 {
            return c;
        }
    }
}
fn terms(w: &[Gl], r: &mut Rng, palette: bool) -> Terms<Gl> {
    let n = match r.below(if palette { 5 } else { 9 }) {
        0 => 0,
        1..=3 => 1,
        4 => 2,
        5 => 3,
        _ => r.below(8) as usize,
    };
    let mut t: Terms<Gl> = vec![];
    for _ in 0..n {
        // the constant wire more often than the others
        let i = if r.below(6) == 0 { 0 } else { r.below(w.len() as u64) as usize };
        if t.iter().all(|x| x.0 != i) {
            t.push((i, coef(r, palette)));
        }
    }
    t
}
fn circuit(r: &mut Rng) -> Circ {
    let publics = match r.below(12) {
        0 => 0,
        1..=5 => 1 + r.below(4) as usize,
        6..=8 => 11 + r.below(3) as usize,
        9 => 23 + r.below(3) as usize,
        _ => 1 + r.below(30) as usize,
    };
    let outs = if r.below(3) == 0 { r.below(publics as u64 + 1) as usize } else { 0 };
    let mut w = vec![Gl::ONE];
    for _ in 0..publics + r.below(12) as usize {
        w.push(some(r));
    }
    let mut spec = Spec {
        outs,
        ins: publics - outs,
        prv: 0,
        wires: 0,
        labels: vec![],
        constraints: vec![],
        gates: vec![],
        uses: vec![],
    };
    let palette = r.below(3) > 0;
    let mut todo = match r.below(10) {
        0 => 0,
        1..=6 => r.below(9),
        7..=8 => r.below(40),
        _ => r.below(150),
    };
    // gates are declared in any order, some of them without a use
    let kinds = if r.below(2) == 0 { vec![] } else { (0..1 + r.below(5)).map(|_| r.below(4) as usize).collect() };
    for k in kinds {
        let name = GATES[k].0;
        // circom lists each template once for each set of parameters
        if name != "FFT4" && spec.gates.iter().any(|g| g.0 == name) {
            continue;
        }
        let p = if name == "FFT4" {
            vec![coef(r, false), coef(r, false), coef(r, palette), Gl([2, 4][r.below(2) as usize])]
        } else {
            vec![]
        };
        spec.gates.push((name.into(), p));
    }
    let mut gates = if spec.gates.is_empty() { 0 } else { r.below(5) };
    while todo + gates > 0 {
        if r.below(todo + gates) < gates {
            gates -= 1;
            let id = r.below(spec.gates.len() as u64) as usize;
            let (name, p) = spec.gates[id].clone();
            let inputs = GATES.iter().find(|g| g.0 == name).unwrap().1;
            let mut sig: Vec<u64> = vec![];
            for _ in 0..inputs {
                if w.len() > 1 && r.below(2) == 0 {
                    sig.push(1 + r.below(w.len() as u64 - 1));
                } else {
                    sig.push(w.len() as u64);
                    w.push(some(r));
                }
            }
            let v: Vec<Gl> = sig.iter().map(|i| w[*i as usize]).collect();
            for x in gate_outputs(&name, &p, &v) {
                sig.push(w.len() as u64);
                w.push(x);
            }
            spec.uses.push((id as u32, sig));
            continue;
        }
        todo -= 1;
        let (mut a, mut b, mut c) = match r.below(6) {
            // a sum is zero, as circom writes it
            0 => (vec![], vec![], terms(&w, r, palette)),
            1 => (vec![(0, coef(r, palette))], terms(&w, r, palette), terms(&w, r, palette)),
            2 => (terms(&w, r, palette), vec![(0, coef(r, palette))], terms(&w, r, palette)),
            _ => (terms(&w, r, palette), terms(&w, r, palette), terms(&w, r, palette)),
        };
        let d = lc(&a, &w) * lc(&b, &w) - lc(&c, &w);
        match r.below(3) {
            // a new wire takes it up
            0 | 1 => {
                let k = coef(r, palette);
                if k != Gl::ZERO {
                    let x = d * k.invert().unwrap();
                    c.push((w.len(), k));
                    w.push(x);
                }
            }
            _ if w.len() > 1 => {
                let i = 1 + r.below(w.len() as u64 - 1) as usize;
                if w[i] != Gl::ZERO && c.iter().all(|x| x.0 != i) {
                    c.push((i, d * w[i].invert().unwrap()));
                }
            }
            _ => {}
        }
        let d = lc(&a, &w) * lc(&b, &w) - lc(&c, &w);
        if d != Gl::ZERO {
            match c.iter_mut().find(|x| x.0 == 0) {
                Some(x) => x.1 += d,
                None => c.push((0, d)),
            }
        }
        if r.below(2) == 0 {
            for t in [&mut a, &mut b, &mut c] {
                t.sort_by_key(|x| x.0);
            }
        }
        spec.constraints.push([a, b, c]);
    }
    // any wires may be the public ones
    let n = w.len();
    let mut to: Vec<usize> = (0..n).collect();
    for i in (2..n).rev() {
        to.swap(i, 1 + r.below(i as u64) as usize);
    }
    let mut v = vec![Gl::ZERO; n];
    (0..n).for_each(|i| v[to[i]] = w[i]);
    spec.constraints.iter_mut().flatten().flatten().for_each(|t| t.0 = to[t.0]);
    spec.uses.iter_mut().for_each(|u| u.1.iter_mut().for_each(|x| *x = to[*x as usize] as u64));
    spec.prv = r.below((n - publics) as u64) as usize;
    spec.wires = n;
    spec.labels = (0..n as u64).collect();
    assert_eq!(broken(&spec, &v), None);
    Circ { spec, w: v }
}

// ------------------------------------------------------------------ what the columns have to satisfy
struct Trace {
    n: usize,
    cons: Vec<Vec<u64>>,
    cm: Vec<Vec<u64>>,
}
fn columns(file: &[u8], cols: usize) -> Option<Vec<Vec<u64>>> {
    if cols == 0 || file.len() % (8 * cols) != 0 {
        return None;
    }
    let v: Vec<u64> = file.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    if v.iter().any(|x| *x >= P) {
        return None;
    }
    Some((0..cols).map(|c| v.iter().skip(c).step_by(cols).copied().collect()).collect())
}
const P: u64 = 0xFFFF_FFFF_0000_0001;

/// The exported constraints, read off the JSON.
struct Exported<'a> {
    pil: &'a PIL,
    t: &'a Trace,
    pubs: &'a [Gl],
}
impl Exported<'_> {
    fn at(&self, e: &Expression, row: usize, memo: &mut HashMap<usize, Gl>) -> Gl {
        let r = if e.next.unwrap_or(false) { (row + 1) % self.t.n } else { row };
        let sub = |k: usize| &e.values.as_ref().unwrap()[k];
        match e.op.as_str() {
            "cm" => Gl(self.t.cm[e.id.unwrap()][r]),
            "const" => Gl(self.t.cons[e.id.unwrap()][r]),
            "exp" => {
                assert_eq!(r, row, "next row of an expression");
                self.exp(e.id.unwrap(), row, memo)
            }
            "public" => self.pubs[e.id.unwrap()],
            "number" => Gl(e.value.as_ref().unwrap().parse::<u64>().unwrap() % P),
            "add" => self.at(sub(0), row, memo) + self.at(sub(1), row, memo),
            "sub" => self.at(sub(0), row, memo) - self.at(sub(1), row, memo),
            "mul" => self.at(sub(0), row, memo) * self.at(sub(1), row, memo),
            "neg" => -self.at(sub(0), row, memo),
            o => panic!("expression {o}"),
        }
    }
    fn exp(&self, id: usize, row: usize, memo: &mut HashMap<usize, Gl>) -> Gl {
        if let Some(x) = memo.get(&id) {
            return *x;
        }
        let x = self.at(&self.pil.expressions[id], row, memo);
        memo.insert(id, x);
        x
    }
    /// Rows and identities that do not hold.
    fn bad(&self) -> Vec<(usize, usize)> {
        let mut out = vec![];
        for row in 0..self.t.n {
            let mut memo = HashMap::new();
            for (k, id) in self.pil.polIdentities.iter().enumerate() {
                if self.exp(id.e, row, &mut memo) != Gl::ZERO {
                    out.push((row, k));
                }
            }
        }
        out
    }
}
/// The same, read off the text.
struct Written<'a> {
    text: &'a ast::Analyzed<GoldilocksField>,
    inner: HashMap<u64, &'a ast::AlgebraicExpression<GoldilocksField>>,
    t: &'a Trace,
    pubs: &'a [Gl],
}
impl<'a> Written<'a> {
    fn new(text: &'a ast::Analyzed<GoldilocksField>, t: &'a Trace, pubs: &'a [Gl]) -> Self {
        let inner = text.intermediate_columns.values().map(|(s, e)| (s.id, &e[0])).collect();
        Written { text, inner, t, pubs }
    }
    fn at(&self, e: &ast::AlgebraicExpression<GoldilocksField>, row: usize, memo: &mut HashMap<u64, Gl>) -> Gl {
        use ast::AlgebraicBinaryOperator::*;
        use ast::AlgebraicExpression::*;
        match e {
            Reference(x) => {
                let r = if x.next { (row + 1) % self.t.n } else { row };
                let id = x.poly_id.id;
                match x.poly_id.ptype {
                    ast::PolynomialType::Committed => Gl(self.t.cm[id as usize][r]),
                    ast::PolynomialType::Constant => Gl(self.t.cons[id as usize][r]),
                    ast::PolynomialType::Intermediate => {
                        if let Some(v) = memo.get(&id) {
                            return *v;
                        }
                        let v = self.at(self.inner[&id], row, memo);
                        memo.insert(id, v);
                        v
                    }
                }
            }
            PublicReference(n) => self.pubs[self.text.public_declarations[n].id as usize],
            Challenge(_) => panic!("challenge"),
            Number(n) => Gl(n.0),
            BinaryOperation(b) => {
                let (l, r) = (self.at(&b.left, row, memo), self.at(&b.right, row, memo));
                match b.op {
                    Add => l + r,
                    Sub => l - r,
                    Mul => l * r,
                    Pow => panic!("power"),
                }
            }
            UnaryOperation(u) => -self.at(&u.expr, row, memo),
        }
    }
    fn bad(&self) -> Vec<(usize, usize)> {
        let ids: Vec<_> =
            self.text.identities.iter().filter(|i| i.kind == ast::IdentityKind::Polynomial).collect();
        let mut out = vec![];
        for row in 0..self.t.n {
            let mut memo = HashMap::new();
            for (k, id) in ids.iter().enumerate() {
                if self.at(id.left.selector.as_ref().unwrap(), row, &mut memo) != Gl::ZERO {
                    out.push((row, k));
                }
            }
        }
        out
    }
}

type Cell = (usize, usize);
/// Where the constants say each cell is copied to.
fn copies(pil: &PIL, t: &Trace, bits: usize) -> Result<HashMap<Cell, Cell>, String> {
    let Some([c]) = pil.connectionIdentities.as_ref().map(|c| &c[..]) else {
        return Err("there is not one connection".into());
    };
    let (a, s) = (c.pols.as_ref().unwrap(), c.connections.as_ref().unwrap());
    let (a, s): (Vec<_>, Vec<_>) = (
        a.iter().map(|e| &pil.expressions[*e]).collect(),
        s.iter().map(|e| &pil.expressions[*e]).collect(),
    );
    let whole = |v: &[&Expression], op: &str| v.len() == 12 && v.iter().all(|e| e.op == op && !e.next.unwrap_or(false));
    if !whole(&a, "cm") || !whole(&s, "const") {
        return Err("the connection is not twelve columns and twelve constants".into());
    }
    let mut w = Gl(1753635133440165772);
    for _ in bits..32 {
        w = w * w;
    }
    let k = Gl(12275445934081160404);
    let mut place: HashMap<u64, Cell> = HashMap::new();
    let mut x = Gl::ONE;
    for row in 0..t.n {
        let mut y = x;
        for e in &a {
            place.insert(y.0, (e.id.unwrap(), row));
            y = y * k;
        }
        x = x * w;
    }
    let mut to = HashMap::new();
    let mut seen = std::collections::HashSet::new();
    for row in 0..t.n {
        for (e, f) in a.iter().zip(&s) {
            let Some(p) = place.get(&t.cons[f.id.unwrap()][row]) else {
                return Err(format!("row {row}: the connection leads nowhere"));
            };
            if !seen.insert(*p) {
                return Err(format!("row {row}: two cells lead to {p:?}"));
            }
            to.insert((e.id.unwrap(), row), *p);
        }
    }
    Ok(to)
}
fn uncopied(to: &HashMap<Cell, Cell>, t: &Trace) -> Option<Cell> {
    let mut v: Vec<_> = to.iter().filter(|(a, b)| t.cm[a.0][a.1] != t.cm[b.0][b.1]).map(|x| *x.0).collect();
    v.sort();
    v.first().copied()
}

// ------------------------------------------------------------------ the commands
const R1CS: &str = "/simfs/c.r1cs";
const PILF: &str = "/simfs/c.pil";
const PILJ: &str = "/simfs/c.pil.json";
const CONST: &str = "/simfs/c.const";
const EXEC: &str = "/simfs/c.exec";
const WASM: &str = "/simfs/c.wasm";
const INPUT: &str = "/simfs/c.input.json";
const CM: &str = "/simfs/c.cm";

fn setup(bits: usize) -> anyhow::Result<()> {
    recursion::compressor12_setup::setup(R1CS, PILF, CONST, EXEC, bits)
}
fn exec() -> anyhow::Result<()> {
    recursion::compressor12_exec::exec(INPUT, WASM, PILF, EXEC, CM)
}
/// A program that computes these wires, some of them from its inputs, and the inputs.
fn program(w: &[Gl], r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let mut signals: Vec<Signal> = vec![];
    let mut values: Vec<Gl> = vec![];
    for i in 0..r.below(4) {
        let size = [1, 1, 2, 5][r.below(4) as usize];
        signals.push(Signal { name: format!("in{i}"), size, at: values.len(), even: false });
        for _ in 0..size {
            values.push(w[r.below(w.len() as u64) as usize]);
        }
    }
    let wires = w
        .iter()
        .enumerate()
        .map(|(i, x)| match values.iter().position(|v| v == x) {
            Some(k) if i > 0 => Wire::Input(k),
            _ => Wire::Const(x.big()),
        })
        .collect();
    let p = Program {
        n32: 2,
        prime: Gl::modulus(),
        version: Some(2),
        inputs: values.len(),
        wires,
        counts_inputs: r.below(2) == 0,
        imports_memory: r.below(3) == 0,
        old_errors: r.below(3) == 0,
        signals,
    };
    let input: serde_json::Map<String, serde_json::Value> = p
        .signals
        .iter()
        .map(|s| {
            let v: Vec<String> = values[s.at..s.at + s.size].iter().map(|x| x.0.to_string()).collect();
            (s.name.clone(), if s.size == 1 { v[0].clone().into() } else { v.into() })
        })
        .collect();
    (compile(&p), serde_json::to_vec(&input).unwrap())
}
fn calm_exec(w: &[Gl], r: &mut Rng) -> Result<(), Viol> {
    let (wasm, input) = program(w, r);
    simfs::put(WASM, &wasm);
    simfs::put(INPUT, &input);
    match guarded(exec) {
        Ok(Ok(())) => Ok(()),
        o => viol("compressor: exec failed without a cause", outcome(&o)),
    }
}
fn file(p: &str) -> Vec<u8> {
    simfs::get(p).unwrap_or_default()
}

/// What setup and exec left, as their formats say.
fn collect(text: &ast::Analyzed<GoldilocksField>) -> Result<(PIL, Trace), Viol> {
    let pil: PIL = match guarded(|| load_json::<PIL>(PILJ)) {
        Ok(Ok(p)) => p,
        o => return viol("compressor: exported constraints are not readable", outcome(&o.map(|r| r.map(|_| ())))),
    };
    let n = text.degree as usize;
    let (Some(cons), Some(cm)) = (columns(&file(CONST), text.constant_count()), columns(&file(CM), 12)) else {
        return viol("compressor: column file of a wrong shape", format!("{:?}", (n, file(CONST).len(), file(CM).len())));
    };
    if cons[0].len() != n || cm[0].len() != n {
        return viol("compressor: column file of a wrong length", format!("{:?}", (n, cons[0].len(), cm[0].len())));
    }
    Ok((pil, Trace { n, cons, cm }))
}
/// Whether the constraints hold; the text and its export have to agree.
fn verdict(
    text: &ast::Analyzed<GoldilocksField>,
    pil: &PIL,
    t: &Trace,
    to: &HashMap<Cell, Cell>,
    pubs: &[Gl],
) -> Result<Option<String>, Viol> {
    let (a, b) = (Written::new(text, t, pubs).bad(), Exported { pil, t, pubs }.bad());
    if a != b {
        return viol(
            "compressor: the exported constraints are not the written ones",
            format!("{:?} against {:?}", &a[..a.len().min(3)], &b[..b.len().min(3)]),
        );
    }
    if let Some((row, k)) = a.first() {
        return Ok(Some(format!("identity {k} in row {row}")));
    }
    Ok(uncopied(to, t).map(|c| format!("copy of {c:?}")))
}

pub fn prewarm() {}

pub fn run() -> Run {
    simcore::set_faults(false);
    let mut r = pick_rng();
    let Circ { spec, w } = circuit(&mut r);
    let publics = spec.outs + spec.ins;
    let what = format!(
        "{} wires, {}+{} public, {} constraints, gates {:?} used {:?}",
        spec.wires,
        spec.outs,
        spec.ins,
        spec.constraints.len(),
        spec.gates.iter().map(|g| &g.0[..]).collect::<Vec<_>>(),
        spec.uses.iter().map(|u| u.0).collect::<Vec<_>>(),
    );
    log(what.clone());
    if std::env::var("SIM_DUMP").is_ok() {
        eprintln!("{spec:?}\n{w:?}");
    }
    let r1cs = encode(&spec, Wrong::Nothing, &mut r);
    simfs::put(R1CS, &r1cs);
    match guarded(|| setup(0)) {
        Ok(Ok(())) => {}
        o => return viol("compressor: setup failed without a cause", format!("{what}: {}", outcome(&o))),
    }
    count("circuits", 1);
    let text = match guarded(|| {
        powdr::pil_analyzer::analyze_file::<GoldilocksField>(std::path::Path::new(PILF))
    }) {
        Ok(t) => t,
        Err(e) => return viol("compressor: the constraints do not parse", format!("{what}: {e}")),
    };
    let bits = text.degree.ilog2() as usize;
    if text.degree != 1 << bits {
        return viol("compressor: the number of rows is no power of two", text.degree);
    }
    // on a failing disk, in another process
    simcore::reseed_entropy(r.next());
    let mut inputs = BTreeMap::new();
    let mut refused = false;
    let mut force = 0;
    let mut bad = r1cs.clone();
    match r.below(12) {
        0 => {
            bad = encode(&spec, *pick_of(&[Wrong::Magic, Wrong::Version, Wrong::FieldSize, Wrong::Prime, Wrong::HeaderSize, Wrong::MapSize, Wrong::NoSection(1), Wrong::NoSection(2), Wrong::Cut]), &mut r);
            refused = true;
            log("damaged circuit file");
        }
        1 => {
            // fewer rows than it takes
            force = bits - 1;
            refused = force > 0;
        }
        2 => force = bits,
        _ => {}
    }
    inputs.insert(R1CS.to_string(), bad);
    let outputs: Vec<_> = [PILF, CONST, EXEC].iter().map(|p| (p.to_string(), file(p))).collect();
    until_done("compressor setup", &inputs, &outputs, refused, || setup(force))?;
    for (p, d) in outputs {
        simfs::put(&p, &d);
    }
    simfs::put(R1CS, &r1cs);

    // an honest witness
    calm_exec(&w, &mut r)?;
    let (pil, t) = collect(&text)?;
    let to = match copies(&pil, &t, bits) {
        Ok(x) => x,
        Err(e) => return viol("compressor: the connection is no permutation", format!("{what}: {e}")),
    };
    if pil.publics.len() != publics || text.public_declarations.len() != publics {
        return viol("compressor: other values are public than the circuit's", format!("{what}: {}", pil.publics.len()));
    }
    let public_values = |t: &Trace| -> Vec<Gl> {
        pil.publics.iter().map(|p| if p.polType == "cmP" { Gl(t.cm[p.polId][p.idx]) } else { Gl(P) }).collect()
    };
    let pubs = public_values(&t);
    if pubs[..] != w[1..1 + publics] {
        return viol("compressor: other values are public than the circuit's", format!("{what}: {pubs:?}"));
    }
    if let Some(e) = verdict(&text, &pil, &t, &to, &pubs)? {
        return viol("compressor: a satisfying witness breaks the constraints", format!("{what}: {e}"));
    }
    count("witnesses", 1);
    state_of(&(bits, publics.min(13), spec.constraints.len().min(10), spec.uses.len(), spec.gates.len()));
    {
        simcore::reseed_entropy(r.next());
        let outputs: Vec<_> = [PILJ, CM].iter().map(|p| (p.to_string(), file(p))).collect();
        let mut inputs: BTreeMap<_, _> =
            [PILF, EXEC, WASM, INPUT].iter().map(|p| (p.to_string(), file(p))).collect();
        let good = inputs.clone();
        let mut refused = false;
        if r.below(8) == 0 {
            let k = pick_of(&inputs.keys().filter(|k| k.as_str() != PILF).cloned().collect::<Vec<_>>()).clone();
            let d = inputs.get_mut(&k).unwrap();
            d.truncate(pick(d.len()));
            refused = true;
            log(format!("{k} is cut short"));
        }
        until_done("compressor exec", &inputs, &outputs, refused, exec)?;
        for (p, d) in good.into_iter().chain(outputs) {
            simfs::put(&p, &d);
        }
    }

    // other assignments, and what they make of the same cells
    for k in 0..1 + r.below(4) {
        let mut v = w.clone();
        let how = if k == 0 {
            // all of them different, so that a cell tells its wire
            v.iter_mut().skip(1).for_each(|x| *x = Gl(1 + r.below(P - 1)));
            "random wires".to_string()
        } else {
            if !spec.uses.is_empty() && r.below(2) == 0 {
                // one value that a gate gives
                let (id, sig) = &spec.uses[r.below(spec.uses.len() as u64) as usize];
                let outs = if ["CMulAdd", "EvPol4"].contains(&&spec.gates[*id as usize].0[..]) { 3 } else { 12 };
                let i = sig[sig.len() - 1 - r.below(outs) as usize] as usize;
                v[i] += Gl(1 + r.below(P - 1));
            }
            for _ in 0..if v == w { 1 + r.below(2) } else { r.below(3) / 2 } {
                if v.len() > 1 {
                    let i = 1 + r.below(v.len() as u64 - 1) as usize;
                    v[i] = if r.below(3) == 0 { v[i] + Gl(1) } else { some(&mut r) };
                }
            }
            "changed wires".to_string()
        };
        calm_exec(&v, &mut r)?;
        let (pil, t) = collect(&text)?;
        let got = verdict(&text, &pil, &t, &to, &public_values(&t))?;
        let want = broken(&spec, &v);
        count(if want.is_some() { "false_witnesses" } else { "other_witnesses" }, 1);
        if got.is_some() != want.is_some() {
            return viol(
                if got.is_none() { "compressor: a false witness satisfies the constraints" } else { "compressor: a satisfying witness breaks the constraints" },
                format!("{what}: {how}: circuit {want:?}, constraints {got:?}"),
            );
        }
        if k == 0 {
            // cells of one wire are copies of one another, and of nothing else
            let mut class: BTreeMap<u64, Vec<Cell>> = BTreeMap::new();
            for (c, col) in t.cm.iter().enumerate() {
                for (row, x) in col.iter().enumerate() {
                    class.entry(*x).or_default().push((c, row));
                }
            }
            // sums of wires may be there more than once, each tied to its own gate
            class.retain(|x, _| v[1..].iter().any(|w| w.0 == *x));
            for (_, cells) in class {
                let mut at = cells[0];
                let mut n = 0;
                loop {
                    at = to[&at];
                    n += 1;
                    if at == cells[0] || n > cells.len() {
                        break;
                    }
                }
                if n != cells.len() {
                    return viol(
                        "compressor: cells of one wire are not tied together",
                        format!("{what}: {} cells, a cycle of {n}", cells.len()),
                    );
                }
            }
        }
    }

    // a prover that changes cells on its own
    calm_exec(&w, &mut r)?;
    let (_, mut t) = collect(&text)?;
    let pubs = public_values(&t);
    let tied: Vec<Cell> = {
        let mut v: Vec<_> = to.iter().filter(|(a, b)| a != b).map(|x| *x.0).collect();
        v.sort();
        v
    };
    for _ in 0..3 {
        if tied.is_empty() {
            break;
        }
        let (c, row) = *pick_of(&tied);
        let old = t.cm[c][row];
        t.cm[c][row] = (Gl(old) + Gl(1 + r.below(P - 1))).0;
        count("changed_cells", 1);
        if verdict(&text, &pil, &t, &to, &pubs)?.is_none() {
            return viol("compressor: a changed cell goes unnoticed", format!("{what}: column {c}, row {row}"));
        }
        t.cm[c][row] = old;
    }
    if publics > 0 {
        let mut lie = pubs.clone();
        let k = r.below(publics as u64) as usize;
        lie[k] += Gl(1 + r.below(P - 1));
        count("false_publics", 1);
        if verdict(&text, &pil, &t, &to, &lie)?.is_none() {
            return viol("compressor: a false public value goes unnoticed", format!("{what}: public {k}"));
        }
    }
    if one_in(60) && (2..7).contains(&bits) {
        prove(&what, bits)?;
    }
    Ok(())
}

/// The compressed circuit is proved and the proof verified.
fn prove(what: &str, bits: usize) -> Run {
    use starky::merklehash::MerkleTreeGL;
    use starky::polsarray::{PolKind, PolsArray};
    use starky::stark_gen::StarkProof;
    use starky::stark_setup::StarkSetup;
    use starky::stark_verify::stark_verify;
    use starky::transcript::TranscriptGL;
    use starky::types::StarkStruct;
    let ext = bits + 1 + pick(2);
    let ss: StarkStruct = serde_json::from_value(serde_json::json!({
        "nBits": bits, "nBitsExt": ext, "nQueries": 8, "verificationHashType": "GL",
        "steps": [{"nBits": ext}, {"nBits": 2}],
    }))
    .unwrap();
    let ok = guarded(|| -> anyhow::Result<bool> {
        let mut pil: PIL = load_json(PILJ)?;
        let load = |kind, path| -> anyhow::Result<PolsArray> {
            let mut a = PolsArray::new(&pil, kind);
            a.load(path)?;
            Ok(a)
        };
        let (cons, cons2, cm) = (load(PolKind::Constant, CONST)?, load(PolKind::Constant, CONST)?, load(PolKind::Commit, CM)?);
        let mut st = StarkSetup::<MerkleTreeGL>::new(&cons, &mut pil, &ss, None)?;
        let proof = StarkProof::<MerkleTreeGL>::stark_gen::<TranscriptGL>(
            cm,
            cons2,
            &st.const_tree,
            &st.starkinfo,
            &st.program,
            &pil,
            &ss,
            "273030697313060285579891744179749754319274977764",
        )?;
        stark_verify::<MerkleTreeGL, TranscriptGL>(&proof, &st.const_root, &st.starkinfo, &ss, &mut st.program)
    });
    count("proofs", 1);
    match ok {
        Ok(Ok(true)) => Ok(()),
        o => viol("compressor: no proof of a satisfying witness verifies", format!("{what}: {}", outcome(&o.map(|r| r.map(|b| b.to_string()))))),
    }
}
