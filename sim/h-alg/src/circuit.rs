//! Circuit files, by the format's specification.
use crate::fields::*;
use num_bigint::BigUint;
use simcore::Rng;

/// A sum of wires, as listed in the file.
pub type Terms<F> = Vec<(usize, F)>;
#[derive(Clone, Debug)]
pub struct Spec<F> {
    pub outs: usize,
    pub ins: usize,
    pub prv: usize,
    pub wires: usize,
    pub labels: Vec<u64>,
    pub constraints: Vec<[Terms<F>; 3]>,
    pub gates: Vec<(String, Vec<F>)>,
    pub uses: Vec<(u32, Vec<u64>)>,
}

fn terms<F: Fld>(wires: usize, r: &mut Rng) -> Terms<F> {
    let n = [0, 1, 1, 2, 3, 7][r.below(6) as usize];
    let mut t: Terms<F> = vec![];
    for _ in 0..n {
        let w = r.below(wires as u64) as usize;
        // circom lists a wire once
        if t.iter().all(|x| x.0 != w) {
            t.push((w, some(r)));
        }
    }
    if r.below(2) == 0 {
        t.sort_by_key(|x| x.0);
    }
    t
}
pub fn spec<F: Fld>(r: &mut Rng) -> Spec<F> {
    let (outs, ins, prv) = (r.below(3) as usize, r.below(4) as usize, r.below(4) as usize);
    let wires = 1 + outs + ins + prv + r.below(8) as usize;
    let n = if r.below(20) == 0 { 100 + r.below(300) } else { r.below(9) };
    let mut labels: Vec<u64> = (0..wires as u64).collect();
    for k in 1..wires {
        labels[k] = match r.below(3) {
            0 => r.next() >> 1,
            _ => labels[k - 1] + 1 + r.below(3),
        };
    }
    let gates: Vec<_> = (0..r.below(3) * r.below(2))
        .map(|i| {
            let name = format!("Gate{i}{}", "é".repeat(r.below(3) as usize));
            (name, (0..r.below(5)).map(|_| some(r)).collect())
        })
        .collect();
    let uses = (0..r.below(4) * r.below(2))
        .map(|_| (r.below(5) as u32, (0..r.below(6)).map(|_| r.next() >> r.below(60)).collect()))
        .collect();
    Spec {
        outs,
        ins,
        prv,
        wires,
        labels,
        constraints: (0..n).map(|_| [terms(wires, r), terms(wires, r), terms(wires, r)]).collect(),
        gates,
        uses,
    }
}

/// What can be wrong with a circuit file.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Wrong {
    Nothing,
    Magic,
    Version,
    FieldSize,
    Prime,
    OtherPrime,
    HeaderSize,
    MapSize,
    MapZero,
    Coefficient,
    PublicWires,
    WireIndex,
    NoSection(u32),
    Cut,
}

fn section(kind: u32, body: Vec<u8>) -> (u32, Vec<u8>) {
    (kind, body)
}
fn u32s(out: &mut Vec<u8>, v: &[u32]) {
    v.iter().for_each(|x| out.extend_from_slice(&x.to_le_bytes()));
}
/// The file, by the format's specification.
pub fn encode<F: Fld>(s: &Spec<F>, wrong: Wrong, r: &mut Rng) -> Vec<u8> {
    let fs = F::BYTES as u32;
    let mut head = vec![];
    u32s(&mut head, &[if wrong == Wrong::FieldSize { [4, 8 + 32 - fs, 48, 0][r.below(4) as usize] } else { fs }]);
    let mut prime = F::prime_le();
    if wrong == Wrong::Prime {
        prime[r.below(fs as u64) as usize] ^= 1 << r.below(8);
    }
    if wrong == Wrong::OtherPrime {
        // a circuit for another field, of elements as long
        let other = if F::NAME == "BN128" { blstrs::Scalar::MOD } else { Bn::MOD };
        if F::BYTES == 32 {
            prime = le(&BigUint::parse_bytes(other.as_bytes(), 16).unwrap(), 32);
        }
    }
    head.extend(prime);
    let mut ins = s.ins;
    if wrong == Wrong::PublicWires {
        ins = s.wires - s.outs + [0, 1, 1 << 20][r.below(3) as usize];
    }
    u32s(&mut head, &[s.wires as u32, s.outs as u32, ins as u32, s.prv as u32]);
    head.extend((s.labels.iter().max().unwrap() + 1).to_le_bytes());
    u32s(&mut head, &[s.constraints.len() as u32]);

    let all = 3 * s.constraints.len();
    let bad = r.below(all.max(1) as u64) as usize;
    let mut cons = vec![];
    for (i, t) in s.constraints.iter().flatten().enumerate() {
        let hit = i == bad && !t.is_empty();
        u32s(&mut cons, &[t.len() as u32]);
        for (k, (w, c)) in t.iter().enumerate() {
            let last = hit && k + 1 == t.len();
            let w = if last && wrong == Wrong::WireIndex {
                s.wires + [0, 1, 1 << 24][r.below(3) as usize]
            } else {
                *w
            };
            u32s(&mut cons, &[w as u32]);
            if last && wrong == Wrong::Coefficient {
                let x = F::modulus() + r.below(2);
                cons.extend(le(&x, F::BYTES));
            } else {
                cons.extend(c.to_repr().as_ref());
            }
        }
    }
    let mut map = vec![];
    s.labels.iter().for_each(|l| map.extend(l.to_le_bytes()));
    if wrong == Wrong::MapZero {
        map[r.below(8) as usize] = 1;
    }
    if wrong == Wrong::MapSize {
        if r.below(2) == 0 {
            map.extend([0; 8]);
        } else {
            map.truncate(map.len() - 8);
        }
    }
    let mut sections = vec![section(1, head), section(2, cons), section(3, map)];
    if !s.gates.is_empty() || !s.uses.is_empty() {
        let mut g = vec![];
        u32s(&mut g, &[s.gates.len() as u32]);
        for (name, p) in &s.gates {
            g.extend(name.as_bytes());
            g.push(0);
            u32s(&mut g, &[p.len() as u32]);
            p.iter().for_each(|x| g.extend(x.to_repr().as_ref()));
        }
        let mut u = vec![];
        u32s(&mut u, &[s.uses.len() as u32]);
        for (id, signals) in &s.uses {
            u32s(&mut u, &[*id, signals.len() as u32]);
            signals.iter().for_each(|x| u.extend(x.to_le_bytes()));
        }
        sections.push(section(4, g));
        sections.push(section(5, u));
    }
    if let Wrong::NoSection(k) = wrong {
        sections.retain(|x| x.0 != k);
    }
    for _ in 0..r.below(3) * r.below(2) {
        let n = r.below(50);
        sections.push(section(6 + r.below(10) as u32, (0..n).map(|_| r.next() as u8).collect()));
    }
    // any order
    for i in (1..sections.len()).rev() {
        sections.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut out = b"r1cs".to_vec();
    if wrong == Wrong::Magic {
        out[r.below(4) as usize] ^= 0x20;
    }
    u32s(&mut out, &[if wrong == Wrong::Version { [0, 2, 1 << 8][r.below(3) as usize] } else { 1 }]);
    u32s(&mut out, &[sections.len() as u32]);
    for (kind, body) in sections {
        u32s(&mut out, &[kind]);
        let len = body.len() as u64 + if wrong == Wrong::HeaderSize && kind == 1 { 8 } else { 0 };
        out.extend(len.to_le_bytes());
        out.extend(body);
        if wrong == Wrong::HeaderSize && kind == 1 {
            out.extend([0; 8]);
        }
    }
    if wrong == Wrong::Cut {
        out.truncate(r.below(out.len() as u64) as usize);
    }
    out
}
