//! The Solidity verifier of a BN254 key, run on a simulated EVM: it accepts the key's proofs, and
//! nothing else.
use crate::bn::*;
use crate::g16::{done, VK};
use crate::sol::*;
use groth16::api::*;
use num_bigint::BigUint;
use serde_json::{json, Value};
use simcore::{simfs, Rng};
use simharness::*;

const SOL: &str = "/simfs/verifier.sol";

fn number(r: &mut Rng) -> BigUint {
    let k = r.below(12);
    let b: Vec<u8> = (0..40).map(|_| r.next() as u8).collect();
    match k {
        0 => BigUint::from(1u8),
        1 => order() - 1u8,
        2 => BigUint::from(2 + r.below(1000)),
        // points with short coordinates
        3..=5 => BigUint::from(SHORT[r.below(SHORT.len() as u64) as usize]),
        _ => BigUint::from_bytes_le(&b) % (order() - 1u8) + 1u8,
    }
}
/// Multiples of the second generator whose coordinates' parts are both below 2^248, in x or in y.
const SHORT: &[u64] = &[997, 1772, 2136, 2288, 3499, 4000, 4929, 5305, 5434, 5767, 10063, 10489, 11632, 11812];

type B = BigUint;
fn coords1(p: &G1) -> [B; 2] {
    p.as_ref().map_or(Default::default(), |c| [c.0 .0.clone(), c.1 .0.clone()])
}
/// As in the files: real parts first.
fn coords2(p: &G2) -> [B; 4] {
    let f = |x: &F2| [x.0.clone(), x.1.clone()];
    p.as_ref().map_or(Default::default(), |c| {
        let ([a, b], [c, d]) = (f(&c.0), f(&c.1));
        [a, b, c, d]
    })
}
#[derive(Clone)]
struct Proof {
    a: [B; 2],
    b: [B; 4],
    c: [B; 2],
}
/// A key by its exponents.
struct Key {
    alpha: B,
    beta: B,
    gamma: B,
    delta: B,
    ic: Vec<B>,
}
fn key(r: &mut Rng, inputs: usize) -> Key {
    let mut k = Key {
        alpha: number(r),
        beta: number(r),
        gamma: number(r),
        delta: number(r),
        ic: (0..inputs + 1).map(|_| number(r)).collect(),
    };
    if r.below(4) == 0 {
        let (i, j) = (r.below(inputs as u64 + 1) as usize, r.below(inputs as u64 + 1) as usize);
        k.ic[i] = if r.below(2) == 0 { k.ic[j].clone() } else { order() - &k.ic[j] };
    }
    k
}
impl Key {
    fn document(&self, known: &mut Known, hex: bool) -> Value {
        let show = |x: &B| match hex {
            true => json!(format!("0x{:0>64}", x.to_str_radix(16))),
            false => json!(x.to_string()),
        };
        let one = |p: G1| {
            let c = coords1(&p);
            json!({"x": show(&c[0]), "y": show(&c[1])})
        };
        let two = |p: G2| {
            let c = coords2(&p);
            json!({"x": [show(&c[0]), show(&c[1])], "y": [show(&c[2]), show(&c[3])]})
        };
        json!({
            "protocol": "groth16", "curve": "BN128",
            "vk_alpha_1": one(known.g1(&self.alpha)),
            "vk_beta_1": one(known.g1(&self.beta)), "vk_beta_2": two(known.g2(&self.beta)),
            "vk_gamma_2": two(known.g2(&self.gamma)),
            "vk_delta_1": one(known.g1(&self.delta)), "vk_delta_2": two(known.g2(&self.delta)),
            "IC": self.ic.iter().map(|k| one(known.g1(k))).collect::<Vec<_>>(),
        })
    }
    /// a · b = alpha · beta + gamma · (the inputs' sum) + delta · c
    fn third(&self, a: &B, b: &B, inputs: &[B]) -> B {
        let x = inputs.iter().zip(&self.ic[1..]).fold(self.ic[0].clone(), |s, (x, k)| s + x * k);
        let n = order();
        let have = (a * b + n * n * 2u8 - &self.alpha * &self.beta % n - &self.gamma * (x % n)) % n;
        have * inverse(&self.delta, n) % n
    }
    fn proof(&self, known: &mut Known, a: &B, b: &B, inputs: &[B]) -> Proof {
        let c = self.third(a, b, inputs);
        Proof { a: coords1(&known.g1(a)), b: coords2(&known.g2(b)), c: coords1(&known.g1(&c)) }
    }
}

/// The verdict: yes, or no and why; `None` if the contract is beyond this check.
fn ask(c: &Contract, known: &mut Known, p: &Proof, inputs: &[B]) -> Result<Option<(bool, String)>, Viol> {
    let w = |x: &B| Arg::Word(x.clone());
    let two = |x: &[B]| Arg::Group(x.iter().map(w).collect());
    let proof = Arg::Group(vec![two(&p.a), Arg::Group(vec![two(&p.b[..2]), two(&p.b[2..])]), two(&p.c)]);
    let mut args = vec![proof];
    if !inputs.is_empty() {
        args.push(two(inputs));
    }
    let x = Evm::new(c, known).call("verifyTx", &args);
    count("transactions", 1);
    match x {
        Ok(x) => Ok(Some((x != B::default(), "returned".into()))),
        Err(Stop::Revert(why)) => Ok(Some((false, format!("reverted: {why}")))),
        Err(Stop::Unknown(why)) => {
            count("beyond_this_solidity", 1);
            log(why);
            Ok(None)
        }
        Err(Stop::Bad(why)) => viol("contract: does not compile", why),
    }
}

pub fn run() -> Run {
    simcore::set_faults(false);
    let mut r = pick_rng();
    let mut known = Known::default();
    let inputs = *pick_of(&[0usize, 1, 1, 2, 3, 4, 5, 9, 10, 11, 17]);
    let hex = one_in(2);
    let k = key(&mut r, inputs);
    let doc = k.document(&mut known, hex);
    simfs::put(VK, doc.to_string().as_bytes());
    done("contract", &[VK], || generate_verifier(VK, SOL))?;
    let text = String::from_utf8(simfs::get(SOL).unwrap_or_default()).unwrap_or_default();
    count("contracts", 1);
    log(format!("{inputs} inputs, hex {hex}"));
    let contract = match Contract::parse(&text) {
        Ok(c) => c,
        Err(Stop::Unknown(w)) => {
            count("beyond_this_solidity", 1);
            log(w);
            return Ok(());
        }
        Err(e) => return viol("contract: does not compile", format!("{e:?}")),
    };
    // one proof, and as many inputs as the key has
    let takes = contract.takes("verifyTx");
    let fits = match takes.as_deref() {
        Some([Ty::Named(_)]) => inputs == 0,
        Some([Ty::Named(_), Ty::Fixed(t, n)]) => **t == Ty::Uint(256) && *n == inputs,
        Some([Ty::Named(_), Ty::Dyn(t)]) => **t == Ty::Uint(256),
        _ => false,
    };
    if !fits {
        return viol("contract: takes another number of inputs", format!("{takes:?} for {inputs}"));
    }
    let n = order();
    let value = |r: &mut Rng| match r.below(6) {
        0 => B::default(),
        1 => n - 1u8,
        2 => B::from(1u8),
        3 => B::from(r.below(1 << 40)),
        _ => B::from_bytes_le(&(0..40).map(|_| r.next() as u8).collect::<Vec<_>>()) % n,
    };
    let x: Vec<B> = (0..inputs).map(|_| value(&mut r)).collect();
    let (a, b) = (number(&mut r), number(&mut r));
    let good = k.proof(&mut known, &a, &b, &x);
    let mut cases: Vec<(String, Proof, Vec<B>, bool)> = vec![("the proof".into(), good.clone(), x.clone(), true)];
    let (a2, b2) = (number(&mut r), number(&mut r));
    cases.push(("another proof of it".into(), k.proof(&mut known, &a2, &b2, &x), x.clone(), true));
    let mut y: Vec<B> = (0..inputs).map(|_| value(&mut r)).collect();
    cases.push(("other inputs' proof".into(), k.proof(&mut known, &a2, &b2, &y), y.clone(), true));
    // whether this third point closes the equation
    let closes = |c: &B, a: &B, b: &B, x: &[B]| *c == k.third(a, b, x);
    let c_of = k.third(&a, &b, &x);
    for _ in 0..6 {
        let (mut p, mut z) = (good.clone(), x.clone());
        let one = B::from(1u8);
        let (what, valid) = match r.below(14) {
            0 | 1 if inputs > 0 => {
                let i = r.below(inputs as u64) as usize;
                z[i] = match r.below(3) {
                    0 => (&z[i] + 1u8) % n,
                    1 => (n - &z[i]) % n,
                    _ => value(&mut r),
                };
                (format!("input {i} changed"), closes(&c_of, &a, &b, &z))
            }
            2 if inputs > 0 => {
                let i = r.below(inputs as u64) as usize;
                // up to the largest word
                z[i] += n * (1 + r.below(4));
                if r.below(3) == 0 {
                    z[i] = n.clone();
                    if closes(&c_of, &a, &b, &z) {
                        z[i] = n * 2u8;
                    }
                }
                (format!("input {i} beyond the order"), false)
            }
            3 if inputs > 1 => {
                let (i, j) = (r.below(inputs as u64) as usize, r.below(inputs as u64) as usize);
                z.swap(i, j);
                (format!("inputs {i} and {j} exchanged"), closes(&c_of, &a, &b, &z))
            }
            4 => {
                p.a = coords1(&known.g1(&(n - &a)));
                ("the first point negated".into(), closes(&c_of, &(n - &a), &b, &x))
            }
            5 => {
                p.b = coords2(&known.g2(&(n - &b)));
                ("the second point negated".into(), closes(&c_of, &a, &(n - &b), &x))
            }
            6 => {
                let c = (n - &c_of) % n;
                p.c = coords1(&known.g1(&c));
                ("the third point negated".into(), closes(&c, &a, &b, &x))
            }
            7 => {
                std::mem::swap(&mut p.a, &mut p.c);
                ("the first and the third exchanged".into(), closes(&a, &c_of, &b, &x))
            }
            8 => {
                let d = number(&mut r);
                let (what, v) = match r.below(3) {
                    0 => {
                        p.a = coords1(&known.g1(&d));
                        ("another first point", closes(&c_of, &d, &b, &x))
                    }
                    1 => {
                        p.b = coords2(&known.g2(&d));
                        ("another second point", closes(&c_of, &a, &d, &x))
                    }
                    _ => {
                        p.c = coords1(&known.g1(&d));
                        ("another third point", closes(&d, &a, &b, &x))
                    }
                };
                (what.to_string(), v)
            }
            9 => {
                // nothing at all
                let zero = B::default();
                let (what, v) = match r.below(4) {
                    0 => {
                        p.a = Default::default();
                        ("no first point", closes(&c_of, &zero, &b, &x))
                    }
                    1 => {
                        p.b = Default::default();
                        ("no second point", closes(&c_of, &a, &zero, &x))
                    }
                    2 => {
                        p.c = Default::default();
                        ("no third point", closes(&zero, &a, &b, &x))
                    }
                    _ => {
                        p = Proof { a: Default::default(), b: Default::default(), c: Default::default() };
                        ("no points", closes(&zero, &zero, &zero, &x))
                    }
                };
                (what.to_string(), v)
            }
            10 => {
                // a coordinate changed: off the curve
                let k = r.below(8) as usize;
                let d = if k < 2 { &mut p.a[k] } else if k < 6 { &mut p.b[k - 2] } else { &mut p.c[k - 6] };
                *d = (&*d + &one) % q();
                ("a point off its curve".into(), false)
            }
            11 => {
                // on its curve, outside the group
                let (mut u, w) = (B::from(r.next()), B::from(r.next()));
                p.b = loop {
                    if let Some(y) = root(&F2(u.clone(), w.clone())) {
                        break [u, w, y.0, y.1];
                    }
                    u += 1u8;
                };
                ("the second point outside its group".into(), false)
            }
            12 => {
                let k2 = key(&mut r, inputs);
                let other = k2.proof(&mut known, &a, &b, &x);
                p.c = other.c;
                ("another key's proof".into(), closes(&k2.third(&a, &b, &x), &a, &b, &x))
            }
            _ => {
                // real parts second
                p.b = [p.b[1].clone(), p.b[0].clone(), p.b[3].clone(), p.b[2].clone()];
                ("the second point's parts exchanged".into(), false)
            }
        };
        y = z;
        cases.push((what, p, y.clone(), valid));
    }
    for (what, p, x, valid) in cases {
        let Some((yes, how)) = ask(&contract, &mut known, &p, &x)? else { return Ok(()) };
        count(if valid { "valid_transactions" } else { "other_transactions" }, 1);
        state_of(&(what.split(|c: char| c.is_ascii_digit()).next(), inputs, hex, yes, &how));
        let show = || format!("{what}, {inputs} inputs, hex {hex}: {how}; inputs {x:?}");
        if yes && !valid {
            return viol("contract: accepts what is no proof", show());
        }
        if !yes && valid {
            return viol("contract: refuses a proof", show());
        }
    }
    // a call that runs out of gas must not count as one that adds nothing
    let (kind, most) = [(6, inputs + 1), (7, inputs), (8, 1)][pick(3)];
    if most > 0 {
        let i = pick(most);
        let mut without = k.ic.clone();
        match kind {
            7 => without[i + 1] = B::default(),
            6 if i == inputs => without.fill(B::default()),
            6 => {
                without[1..i + 2].fill(B::default());
            }
            _ => {}
        }
        let other = Key { ic: without, alpha: k.alpha.clone(), beta: k.beta.clone(), gamma: k.gamma.clone(), delta: k.delta.clone() };
        let c = other.third(&a, &b, &x);
        let valid = closes(&c, &a, &b, &x);
        let p = other.proof(&mut known, &a, &b, &x);
        known.fails = Some((kind, i as u64));
        let Some((yes, how)) = ask(&contract, &mut known, &p, &x)? else { return Ok(()) };
        if known.fails.take().is_none() {
            count("failed_precompile_calls", 1);
        }
        if yes && !valid {
            return viol("contract: accepts what is no proof", format!("call {i} of precompile {kind} failed, {inputs} inputs: {how}"));
        }
    }
    for (i, n) in ["additions", "multiplications", "pairings"].iter().enumerate() {
        count(n, known.calls[i]);
    }
    if known.unknown > 0 {
        count("pairings_of_unknown_points", known.unknown);
    }
    Ok(())
}
/// The curve's y over this x.
fn root(x: &F2) -> Option<F2> {
    let v = x.mul(x).mul(x).add(&F2::curve_b());
    // by the norm's root
    let e = (q() + 1u8) >> 2;
    let norm = (&v.0 * &v.0 + &v.1 * &v.1) % q();
    let d = norm.modpow(&e, q());
    let half = inverse(&B::from(2u8), q());
    for d in [d.clone(), (q() - d) % q()] {
        let t = (&v.0 + d) * &half % q();
        let a = t.modpow(&e, q());
        if a == B::default() || &a * &a % q() != t {
            continue;
        }
        let b = &v.1 * inverse(&(&a * 2u8 % q()), q()) % q();
        let y = F2(a, b);
        if y.mul(&y) == v {
            return Some(y);
        }
    }
    None
}
pub fn prewarm() {
    crate::bn::prewarm();
}
