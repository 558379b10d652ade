//! A circuit's witness program, as circom would compile it, and what it computes.
use crate::fields::*;
use num_bigint::BigUint;
use simcore::Rng;

/// What a wire of the witness holds.
#[derive(Clone, Debug)]
pub enum Wire {
    Const(BigUint),
    /// An input's element.
    Input(usize),
    /// The same, with only some bits kept.
    Masked(usize, BigUint),
    /// Whether a sanity check was asked for.
    Sane,
}
#[derive(Clone, Debug)]
pub struct Signal {
    pub name: String,
    pub size: usize,
    /// Its first element's place among all inputs.
    pub at: usize,
    /// The last element has to be even, if checks are asked for.
    pub even: bool,
}
#[derive(Clone, Debug)]
pub struct Program {
    pub n32: usize,
    pub prime: BigUint,
    pub version: Option<u32>,
    pub signals: Vec<Signal>,
    pub inputs: usize,
    pub wires: Vec<Wire>,
    pub counts_inputs: bool,
    pub imports_memory: bool,
    /// Failures are reported as circom 1 did.
    pub old_errors: bool,
}

pub fn fnv1a(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
pub fn program<F: Fld>(r: &mut Rng) -> Program {
    let mut at = 0;
    let mut signals: Vec<Signal> = vec![];
    for i in 0..r.below(5) {
        let name = match r.below(4) {
            0 => format!("{}", (b'a' + i as u8) as char),
            1 => format!("in{i}"),
            2 => format!("señal_{i}_{}", "x".repeat(r.below(40) as usize)),
            _ => format!("root.{i}"),
        };
        let size = [1, 1, 2, 3, 6, 17][r.below(6) as usize];
        signals.push(Signal { name, size, at, even: r.below(6) == 0 });
        at += size;
    }
    let mut wires = vec![Wire::Const(BigUint::from(1u8))];
    for _ in 0..r.below(7) * (1 + r.below(6)) {
        wires.push(match r.below(6) {
            0 => Wire::Const(some::<F>(r).big()),
            1 => Wire::Sane,
            2 if at > 0 => Wire::Masked(r.below(at as u64) as usize, some::<F>(r).big()),
            _ if at > 0 => Wire::Input(r.below(at as u64) as usize),
            _ => Wire::Const(BigUint::from(7u8)),
        });
    }
    Program {
        n32: F::BYTES / 4,
        prime: F::modulus(),
        version: [None, Some(2), Some(2), Some(1)][r.below(4) as usize],
        signals,
        inputs: at,
        wires,
        counts_inputs: r.below(3) != 0,
        imports_memory: r.below(3) == 0,
        old_errors: r.below(3) == 0,
    }
}
impl Program {
    /// The witness for these inputs; `None` if the program refuses them.
    pub fn compute(&self, inputs: &[BigUint], sane: bool) -> Option<Vec<BigUint>> {
        for s in &self.signals {
            if s.even && sane && inputs[s.at + s.size - 1].bit(0) {
                return None;
            }
        }
        let mask = |a: &BigUint, m: &BigUint| {
            let (a, m) = (le(a, 32), le(m, 32));
            BigUint::from_bytes_le(&a.iter().zip(&m).map(|(x, y)| x & y).collect::<Vec<_>>())
        };
        Some(
            self.wires
                .iter()
                .map(|w| match w {
                    Wire::Const(c) => c.clone(),
                    Wire::Input(i) => inputs[*i].clone(),
                    Wire::Masked(i, m) => mask(&inputs[*i], m),
                    Wire::Sane => BigUint::from(sane as u8),
                })
                .collect(),
        )
    }
}

fn leb(mut x: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (x & 0x7f) as u8;
        x >>= 7;
        if x == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}
fn sleb(mut x: i64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (x & 0x7f) as u8;
        x >>= 7;
        if (x == 0 && b & 0x40 == 0) || (x == -1 && b & 0x40 != 0) {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}
fn name(s: &str) -> Vec<u8> {
    let mut o = leb(s.len() as u64);
    o.extend(s.as_bytes());
    o
}
fn vec_of(items: Vec<Vec<u8>>) -> Vec<u8> {
    let mut o = leb(items.len() as u64);
    o.extend(items.concat());
    o
}
#[derive(Default)]
struct Code(Vec<u8>);
impl Code {
    fn op(&mut self, b: &[u8]) -> &mut Self {
        self.0.extend(b);
        self
    }
    fn i32(&mut self, x: u32) -> &mut Self {
        self.0.push(0x41);
        self.0.extend(sleb(x as i32 as i64));
        self
    }
    fn local(&mut self, i: u8) -> &mut Self {
        self.op(&[0x20, i])
    }
    fn mem(&mut self, op: u8, off: u32) -> &mut Self {
        self.0.extend([op, 2]);
        self.0.extend(leb(off as u64));
        self
    }
    fn load(&mut self, off: u32) -> &mut Self {
        self.mem(0x28, off)
    }
    fn store(&mut self, off: u32) -> &mut Self {
        self.mem(0x36, off)
    }
    /// Raises an exception if the condition on the stack holds; like circom 2's, the program goes on.
    fn raise_if(&mut self, code: u32, old: bool) -> &mut Self {
        self.op(&[0x04, 0x40]);
        if old {
            for k in 0..6u32 {
                self.i32(if k == 0 { code } else { 100 * k });
            }
            self.op(&[0x10, 0x04])
        } else {
            self.i32(code).op(&[0x10, 0x00, 0x10, 0x01, 0x10, 0x02])
        };
        self.op(&[0x0b])
    }
    fn done(&self) -> Vec<u8> {
        let mut b = vec![0]; // no further locals
        b.extend(&self.0);
        b.push(0x0b);
        let mut o = leb(b.len() as u64);
        o.extend(b);
        o
    }
}
const SHARED: u32 = 0;
const PRIME: u32 = 64;
const SANE: u32 = 128;
const SEEN: u32 = 256;
const INPUTS: u32 = 1024;
const CONSTS: u32 = 8192;

pub fn compile(p: &Program) -> Vec<u8> {
    let n = p.n32 as u32;
    let sz = 4 * n;
    let old = p.old_errors;
    // types
    let i = 0x7f;
    let types: Vec<Vec<u8>> = vec![
        vec![0x60, 0, 1, i],
        vec![0x60, 0, 0],
        vec![0x60, 1, i, 0],
        vec![0x60, 1, i, 1, i],
        vec![0x60, 2, i, i, 0],
        vec![0x60, 3, i, i, i, 0],
        vec![0x60, 6, i, i, i, i, i, i, 0],
    ];
    let mut imports = vec![];
    for (f, t) in [
        ("exceptionHandler", 2u8),
        ("printErrorMessage", 1),
        ("writeBufferMessage", 1),
        ("showSharedRWMemory", 1),
        ("error", 6),
        ("logSetSignal", 4),
        ("logGetSignal", 4),
        ("log", 2),
        ("logStartComponent", 2),
        ("logFinishComponent", 2),
    ] {
        imports.push([name("runtime"), name(f), vec![0, t]].concat());
    }
    if p.imports_memory {
        imports.push([name("env"), name("memory"), vec![2, 0, 1]].concat());
    }
    // functions
    let mut funcs: Vec<(&str, u8, Vec<u8>)> = vec![];
    if let Some(v) = p.version {
        funcs.push(("getVersion", 0, Code::default().i32(v).done()));
    }
    funcs.push(("getFieldNumLen32", 0, Code::default().i32(n).done()));
    let mut c = Code::default();
    for k in 0..n {
        c.i32(SHARED).i32(PRIME).load(4 * k).store(4 * k);
    }
    funcs.push(("getRawPrime", 1, c.done()));
    let addr = |c: &mut Code, arg: u8| {
        c.local(arg).i32(4).op(&[0x6c]);
    };
    let mut c = Code::default();
    addr(&mut c, 0);
    funcs.push(("readSharedRWMemory", 3, c.load(SHARED).done()));
    let mut c = Code::default();
    addr(&mut c, 0);
    funcs.push(("writeSharedRWMemory", 4, c.local(1).store(SHARED).done()));
    // init forgets all inputs
    let mut c = Code::default();
    c.i32(0).local(0).store(SANE);
    for k in 0..p.inputs as u32 {
        c.i32(0).i32(0).store(SEEN + 4 * k);
        for l in 0..n {
            c.i32(0).i32(0).store(INPUTS + k * sz + 4 * l);
        }
    }
    funcs.push(("init", 2, c.done()));
    // setInputSignal(msb, lsb, pos)
    let mut c = Code::default();
    for s in &p.signals {
        let h = fnv1a(&s.name);
        c.local(0).i32((h >> 32) as u32).op(&[0x46]);
        c.local(1).i32(h as u32).op(&[0x46, 0x71, 0x04, 0x40]);
        if old {
            // a log of what it does
            c.local(1).op(&[0x10, 8]).local(0).local(2).op(&[0x10, 5]).local(2).i32(7).op(&[0x10, 6]).local(2).op(&[0x10, 7]);
            c.local(1).op(&[0x10, 9]);
        }
        c.local(2).i32(s.size as u32).op(&[0x4f]).raise_if(6, old);
        // already set
        addr(&mut c, 2);
        c.load(SEEN + 4 * s.at as u32).raise_if(2, old);
        addr(&mut c, 2);
        c.i32(1).store(SEEN + 4 * s.at as u32);
        if s.even {
            c.local(2).i32(s.size as u32 - 1).op(&[0x46]);
            c.i32(0).load(SANE).op(&[0x71]).i32(0).load(SHARED).i32(1).op(&[0x71, 0x71]).raise_if(4, old);
        }
        for l in 0..n {
            c.local(2).i32(sz).op(&[0x6c]);
            c.i32(0).load(SHARED + 4 * l).store(INPUTS + s.at as u32 * sz + 4 * l);
        }
        c.op(&[0x0f, 0x0b]);
    }
    c.i32(1).raise_if(1, old);
    funcs.push(("setInputSignal", 5, c.done()));
    funcs.push(("getWitnessSize", 0, Code::default().i32(p.wires.len() as u32).done()));
    if p.counts_inputs {
        funcs.push(("getInputSize", 0, Code::default().i32(p.inputs as u32).done()));
    }
    let mut c = Code::default();
    let mut consts = vec![];
    for (w, wire) in p.wires.iter().enumerate() {
        c.local(0).i32(w as u32).op(&[0x46, 0x04, 0x40]);
        let (from, and) = match wire {
            Wire::Sane => (None, None),
            Wire::Input(i) => (Some(INPUTS + *i as u32 * sz), None),
            Wire::Const(x) => {
                consts.push(le(x, sz as usize));
                (Some(CONSTS + (consts.len() as u32 - 1) * sz), None)
            }
            Wire::Masked(i, m) => {
                consts.push(le(m, sz as usize));
                (Some(INPUTS + *i as u32 * sz), Some(CONSTS + (consts.len() as u32 - 1) * sz))
            }
        };
        for l in 0..n {
            c.i32(0);
            match from {
                Some(a) => c.i32(0).load(a + 4 * l),
                None if l == 0 => c.i32(0).load(SANE),
                None => c.i32(0),
            };
            if let Some(m) = and {
                c.i32(0).load(m + 4 * l).op(&[0x71]);
            }
            c.store(SHARED + 4 * l);
        }
        c.op(&[0x0f, 0x0b]);
    }
    c.op(&[0x00]);
    funcs.push(("getWitness", 2, c.done()));

    let first = 10u64;
    let mut exports: Vec<Vec<u8>> = funcs
        .iter()
        .enumerate()
        .map(|(k, f)| [name(f.0), vec![0], leb(first + k as u64)].concat())
        .collect();
    exports.push([name("memory"), vec![2, 0]].concat());
    let data = |at: u32, d: Vec<u8>| {
        let mut o = vec![0];
        o.extend(Code::default().i32(at).0.clone());
        o.push(0x0b);
        o.extend(leb(d.len() as u64));
        o.extend(d);
        o
    };
    let datas = vec![data(PRIME, le(&p.prime, sz as usize)), data(CONSTS, consts.concat())];
    let mut out = b"\0asm\x01\0\0\0".to_vec();
    let mut sec = |id: u8, body: Vec<u8>| {
        out.push(id);
        out.extend(leb(body.len() as u64));
        out.extend(body);
    };
    sec(1, vec_of(types));
    sec(2, vec_of(imports));
    sec(3, vec_of(funcs.iter().map(|f| vec![f.1]).collect()));
    if !p.imports_memory {
        sec(5, vec_of(vec![vec![0, 2]]));
    }
    sec(7, vec_of(exports));
    sec(10, vec_of(funcs.into_iter().map(|f| f.2).collect()));
    sec(11, vec_of(datas));
    out
}
