//! Witness calculation: the inputs a file gives reach the circuit's program, and what it computes is
//! what callers and witness files get.
use crate::fields::*;
use crate::wasm::*;
use super::lib::*;
use num_bigint::{BigInt, BigUint, Sign};
use simcore::{simfs, Rng};
use simharness::disk::*;
use simharness::*;
use std::collections::HashMap;

static MUL_BN: &[u8] = include_bytes!("../../data/multiplier_bn128.wasm");
static MUL_BLS: &[u8] = include_bytes!("../../data/multiplier_bls12381.wasm");

/// The circuit, and its program if it is a generated one.
struct Target {
    what: String,
    wasm: Vec<u8>,
    program: Program,
    real: bool,
}
fn target<F: Kind>(r: &mut Rng) -> Target {
    if r.below(3) == 0 && F::BYTES == 32 {
        // circom's own output for c <== a * b, and its interface
        let sig = |name: &str, at| Signal { name: name.into(), size: 1, at, even: false };
        return Target {
            what: format!("{} multiplier", F::NAME),
            wasm: if F::NAME == "BN128" { MUL_BN } else { MUL_BLS }.to_vec(),
            program: Program {
                n32: 8,
                prime: F::modulus(),
                version: Some(2),
                signals: vec![sig("a", 0), sig("b", 1)],
                inputs: 2,
                wires: vec![Wire::Sane; 4],
                counts_inputs: true,
                imports_memory: false,
                old_errors: false,
            },
            real: true,
        };
    }
    let program = program::<F>(r);
    Target {
        what: format!(
            "{} {} signals, {} inputs, {} wires, version {:?}",
            F::NAME,
            program.signals.len(),
            program.inputs,
            program.wires.len(),
            program.version
        ),
        wasm: compile(&program),
        program,
        real: false,
    }
}
impl Target {
    fn compute(&self, x: &[BigUint], sane: bool) -> Option<Vec<BigUint>> {
        if !self.real {
            return self.program.compute(x, sane);
        }
        let c = &x[0] * &x[1] % &self.program.prime;
        Some(vec![BigUint::from(1u8), c, x[0].clone(), x[1].clone()])
    }
}

/// What an input file may get wrong.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Odd {
    Nothing,
    Unknown,
    Extra,
    Missing,
    Negative,
    TooBig,
    NoNumber,
    Cut,
}

fn json_value(x: &BigInt, r: &mut Rng) -> String {
    let small = x.to_string();
    match r.below(3) {
        0 if small == "1" => "true".into(),
        0 if small == "0" => "false".into(),
        1 => small,
        _ => format!("\"{small}\""),
    }
}
/// Elements as nested lists, cut in any places.
fn json_list(v: &[String], depth: u64, r: &mut Rng) -> String {
    let mut parts = vec![];
    let mut k = 0;
    while k < v.len() {
        let n = 1 + r.below((v.len() - k) as u64) as usize;
        if depth > 0 && r.below(2) == 0 {
            parts.push(json_list(&v[k..k + n], depth - 1, r));
        } else {
            parts.extend(v[k..k + n].iter().cloned());
        }
        if depth > 0 && r.below(9) == 0 {
            parts.push("[]".into());
        }
        k += n;
    }
    format!("[{}]", parts.join([",", ", ", " ,\n "][r.below(3) as usize]))
}

fn big(x: &BigUint) -> BigInt {
    BigInt::from_biguint(Sign::Plus, x.clone())
}
fn limbs(v: &[BigUint], n32: usize) -> Vec<u32> {
    v.iter()
        .flat_map(|x| {
            le(x, 4 * n32).chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect::<Vec<_>>()
        })
        .collect()
}
/// A witness file, by the format's specification.
fn wtns(version: u32, prime: &BigUint, n32: usize, v: &[BigUint]) -> Vec<u8> {
    let n8 = 4 * n32;
    let mut o = b"wtns".to_vec();
    let u32s = |o: &mut Vec<u8>, v: &[u32]| v.iter().for_each(|x| o.extend(x.to_le_bytes()));
    u32s(&mut o, &[version, 2, 1]);
    o.extend((8 + n8 as u64).to_le_bytes());
    u32s(&mut o, &[n8 as u32]);
    o.extend(le(prime, n8));
    u32s(&mut o, &[v.len() as u32, 2]);
    o.extend((v.len() as u64 * n8 as u64).to_le_bytes());
    v.iter().for_each(|x| o.extend(le(x, n8)));
    o
}

struct Case {
    text: String,
    /// As the file gives them.
    raw: HashMap<String, Vec<BigInt>>,
    /// As the circuit gets them.
    flat: Vec<BigUint>,
}
fn case<F: Kind>(p: &Program, odd: Odd, r: &mut Rng) -> Case {
    let m = big(&p.prime);
    let flat: Vec<BigUint> = (0..p.inputs).map(|_| some::<F>(r).big()).collect();
    let hit = r.below(p.signals.len().max(1) as u64) as usize;
    let mut raw: Vec<(String, Vec<BigInt>)> = vec![];
    let mut texts = vec![];
    for (k, s) in p.signals.iter().enumerate() {
        let mut v: Vec<BigInt> = flat[s.at..s.at + s.size].iter().map(big).collect();
        if k == hit {
            let e = r.below(v.len() as u64) as usize;
            match odd {
                Odd::Extra => v.push(BigInt::from(5)),
                Odd::Missing => {
                    v.pop();
                }
                Odd::Negative => v[e] -= &m,
                Odd::TooBig => v[e] += &m * BigInt::from(1 + r.below(3) * r.below(1 << 40)),
                _ => {}
            }
        }
        if odd == Odd::Missing && k == hit && r.below(2) == 0 {
            continue;
        }
        let mut vals: Vec<String> = v.iter().map(|x| json_value(x, r)).collect();
        if odd == Odd::NoNumber && k == hit {
            vals[0] = ["null", "\"\"", "\"0x12\"", "1.5", "{}", "\"1 2\"", "1e3"][r.below(7) as usize].into();
        }
        let text = if vals.len() == 1 && r.below(2) == 0 { vals[0].clone() } else { json_list(&vals, 3, r) };
        texts.push(format!("{}:{}{text}", serde_json::to_string(&s.name).unwrap(), ["", " "][r.below(2) as usize]));
        raw.push((s.name.clone(), v));
    }
    if odd == Odd::Unknown {
        let n = format!("{}z", p.signals.last().map(|s| s.name.as_str()).unwrap_or("q"));
        texts.push(format!("\"{n}\": 3"));
        raw.push((n, vec![BigInt::from(3)]));
    }
    for i in (1..texts.len()).rev() {
        texts.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut text = format!("{{{}}}", texts.join(", "));
    if odd == Odd::Cut {
        let mut n = r.below(text.len() as u64) as usize;
        while !text.is_char_boundary(n) {
            n -= 1;
        }
        text.truncate(n);
    }
    Case { text, raw: raw.into_iter().collect(), flat }
}

/// One circuit and several uses of its calculator.
fn one<F: Kind>(who: usize) -> Run {
    let mut r = pick_rng();
    let t = target::<F>(&mut r);
    let p = &t.program;
    let path = format!("/simfs/w{who}.wasm");
    simfs::put(&path, &t.wasm);
    log(format!("{CRATE}{}", t.what));
    let mut wc = None;
    for last in [false, true] {
        if wc.is_some() {
            break;
        }
        let load = || WitnessCalculator::from_file(&path);
        let (x, failed) = if last { (guarded(load), false) } else { on_disk(load) };
        match x {
            Ok(Ok(x)) => wc = Some(x),
            Ok(Err(e)) if !failed => return viol("witness: program not loaded, without a cause", format!("{}: {e}", t.what)),
            Err(e) if !failed => return viol("witness: program not loaded, without a cause", format!("{}: {e}", t.what)),
            _ => {}
        }
    }
    let mut wc = wc.unwrap();
    if wc.memory.prime != big(&p.prime) {
        return viol("witness: other prime than the program's", &t.what);
    }
    for round in 0..1 + pick(4) {
        use Odd::*;
        let odd = match pick(2) {
            0 => *pick_of(&[Unknown, Extra, Missing, Negative, TooBig, NoNumber, Cut]),
            _ => Nothing,
        };
        let odd = if p.signals.is_empty() && odd != Unknown { Nothing } else { odd };
        let c = case::<F>(p, odd, &mut r);
        let file = format!("/simfs/in{who}.json");
        simfs::put(&file, c.text.as_bytes());
        let (x, failed) = on_disk(|| Ok::<_, String>(load_input_for_witness(&file)));
        simfs::put(&file, c.text.as_bytes());
        let what = format!("{CRATE}{}, round {round}, {odd:?}", t.what);
        state_of(&(CRATE, F::NAME, t.real, round, format!("{odd:?}"), failed, x.is_ok()));
        let unreadable = odd == NoNumber || odd == Cut;
        let inputs = match x {
            Ok(Ok(x)) if unreadable => return viol("witness: unreadable inputs read", format!("{what}: {x:?}")),
            Ok(Ok(x)) => x,
            _ if unreadable => continue,
            x if !failed => return viol("witness: inputs not read, without a cause", format!("{what}: {}", outcome(&x))),
            _ => load_input_for_witness(&file),
        };
        if inputs != c.raw {
            return viol("witness: other inputs than the file's", format!("{what}: {inputs:?} for {}", c.text));
        }
        let sane = one_in(2);
        let want = t.compute(&c.flat, sane);
        // an input that is not set cannot fail a check
        let refuses = match odd {
            Unknown | Extra => true,
            Missing => p.counts_inputs,
            _ => want.is_none(),
        };
        let may_refuse = refuses || odd == Missing || odd == Negative || odd == TooBig;
        count(if CRATE.is_empty() { "bellperson_inputs" } else { "bellman_inputs" }, 1);
        count(if refuses { "refusals" } else { "witnesses" }, 1);
        let got = guarded(|| wc.calculate_witness(inputs.clone(), sane));
        match &got {
            Ok(Ok(w)) if refuses => {
                return viol("witness: calculated from inputs the circuit does not take", format!("{what}: {w:?}"))
            }
            Ok(Ok(_)) if odd == Missing => {}
            Ok(Ok(w)) => {
                let want: Vec<BigInt> = want.as_ref().unwrap().iter().map(big).collect();
                if w[..] != want[..] {
                    return viol("witness: wrong", format!("{what}: {w:?}, not {want:?}"));
                }
            }
            _ if may_refuse => {}
            x => return viol("witness: none, without a cause", format!("{what}: {}", outcome(x))),
        }
        if refuses || odd == Missing {
            continue;
        }
        let (Ok(Ok(_)), Some(want)) = (got, want) else { continue };
        let bin = match guarded(|| wc.calculate_witness_bin(inputs, sane)) {
            Ok(Ok(b)) => b,
            x => return viol("witness: none, without a cause", format!("{what}: {}", outcome(&x))),
        };
        if bin != limbs(&want, p.n32) {
            return viol("witness: wrong", format!("{what}: {} limbs or other ones", bin.len()));
        }
        files::<F>(who, &what, &mut wc, &bin, p, &want, &mut r)?;
    }
    Ok(())
}

/// The witness through its file.
fn files<F: Kind>(
    who: usize,
    what: &str,
    wc: &mut WitnessCalculator,
    bin: &Vec<u32>,
    p: &Program,
    want: &[BigUint],
    r: &mut Rng,
) -> Run {
    let path = format!("/simfs/o{who}.wtns");
    if one_in(2) {
        simfs::put(&path, &vec![b'x'; pick(5000)]);
    }
    let bytes = wtns(p.version.unwrap_or(1), &p.prime, p.n32, want);
    for last in [false, true] {
        let mut save = || wc.save_witness_to_bin_file::<F>(&path, bin);
        let (x, failed) = if last { (guarded(save), false) } else { on_disk(&mut save) };
        let ok = matches!(x, Ok(Ok(())));
        count("saves", 1);
        if !ok && !failed {
            return viol("witness: not saved, without a cause", format!("{what}: {}", outcome(&x)));
        }
        if ok && !(failed && crashed()) && simfs::get(&path).as_ref() != Some(&bytes) {
            return viol("witness: reported as saved but the file is another", what);
        }
        if ok && last {
            break;
        }
    }
    if F::NAME != "BN128" {
        return Ok(());
    }
    let elems: Vec<F> = want.iter().map(|x| F::of(x)).collect();
    let (x, failed) = on_disk(|| Ok::<_, String>(load_witness_from_file::<F>(&path)));
    simfs::put(&path, &bytes);
    read_back("witness: not the file's", what, x, failed, Some(&elems))?;
    // as a list of decimals
    let list: Vec<String> = want.iter().map(|x| format!("\"{x}\"")).collect();
    let mut text = format!("[{}]", list.join(",\n")).into_bytes();
    let cut = one_in(4);
    if cut {
        text.truncate(r.below(text.len() as u64) as usize);
    }
    let jpath = format!("/simfs/o{who}.json");
    simfs::put(&jpath, &text);
    let (x, failed) = on_disk(|| Ok::<_, String>(load_witness_from_file::<F>(&jpath)));
    read_back("witness: not the file's", what, x, failed, if cut { None } else { Some(&elems) })?;
    // damaged ones
    let mut d = bytes.clone();
    let at = |d: &mut Vec<u8>, i: usize, r: &mut Rng| d[i] ^= 1 << r.below(8);
    let n = want.len();
    let kind = match pick(9) {
        0 => {
            at(&mut d, r.below(4) as usize, r);
            "magic"
        }
        1 => {
            d[4] = 3 + r.below(250) as u8;
            "version"
        }
        2 => {
            at(&mut d, 8 + r.below(16) as usize, r);
            "sections"
        }
        3 => {
            at(&mut d, 24 + r.below(36) as usize, r);
            "field"
        }
        4 => {
            at(&mut d, 60 + r.below(2) as usize, r);
            "count"
        }
        5 => {
            at(&mut d, 64 + r.below(12) as usize, r);
            "values' section"
        }
        6 => {
            let i = 76 + 32 * r.below(n as u64) as usize;
            let big = match r.below(3) {
                0 => p.prime.clone(),
                1 => (BigUint::from(1u8) << 256u32) - BigUint::from(1u8),
                _ => &p.prime + r.below(u64::MAX),
            };
            d[i..i + 32].copy_from_slice(&le(&big, 32));
            "value"
        }
        _ => {
            d.truncate(r.below(d.len() as u64) as usize);
            "cut"
        }
    };
    count("damaged_files", 1);
    simfs::put(&path, &d);
    let (x, failed) = if one_in(2) {
        on_disk(|| Ok::<_, String>(load_witness_from_file::<F>(&path)))
    } else {
        (guarded(|| load_witness_from_array::<F>(d.clone()).map_err(|e| e.to_string())), false)
    };
    read_back("witness: damaged file read", &format!("{what}, {kind}"), x, failed, None)
}
fn read_back<F: Kind>(
    sig: &str,
    what: &str,
    x: Result<Result<Vec<F>, String>, String>,
    failed: bool,
    want: Option<&[F]>,
) -> Run {
    match (x, want) {
        (Ok(Ok(v)), Some(w)) if v == w => Ok(()),
        (Ok(Ok(v)), _) => viol(sig, format!("{what}: {} values", v.len())),
        (x, Some(_)) if !failed => viol("witness: file not read, without a cause", format!("{what}: {}", outcome(&x))),
        _ => Ok(()),
    }
}

fn any(who: usize) -> Run {
    match pick(3) {
        0 => one::<Bn>(who),
        1 => one::<blstrs::Scalar>(who),
        _ => one::<Gl>(who),
    }
}
pub fn run() -> Run {
    simcore::set_faults(false);
    any(0)?;
    if one_in(3) {
        any(1)?;
    }
    Ok(())
}
pub fn prewarm() {}
