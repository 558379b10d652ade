//! What goes through the disk: trace files, exec files, joined proofs, and the whole proving command.
use crate::air::{self, Air};
use crate::stark::*;
use crate::util::*;
use serde_json::{json, Map, Value};
use simcore::simfs;
use simcore::Rng;
use simharness::*;
use starky::f3g::F3G;
use starky::polsarray::{PolKind, PolsArray};
use starky::types::PIL;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;

pub fn prewarm() {
    crate::stark::prewarm();
}

// ------------------------------------------------------------------ trace files
fn references(r: &mut Rng) -> (Value, usize, usize, usize) {
    let n = 1usize << (1 + r.below(9));
    let mut refs = Map::new();
    let mut next = [0usize; 2];
    for i in 0..1 + r.below(9) {
        let kind = r.below(2) as usize;
        let name = format!("{}.p{i}", ["Main", "Global", "Byte4"][r.below(3) as usize]);
        let t = ["cmP", "constP"][kind];
        if r.below(3) == 0 {
            let len = 1 + r.below(5) as usize;
            refs.insert(
                name,
                json!({"type": t, "id": next[kind], "polDeg": n, "isArray": true, "len": len}),
            );
            next[kind] += len;
        } else {
            refs.insert(name, json!({"type": t, "id": next[kind], "polDeg": n, "isArray": false}));
            next[kind] += 1;
        }
    }
    for kind in 0..2 {
        if next[kind] == 0 {
            let t = ["cmP", "constP"][kind];
            refs.insert(format!("Last.q{kind}"), json!({"type": t, "id": 0, "polDeg": n, "isArray": false}));
            next[kind] = 1;
        }
    }
    // intermediate polynomials are no columns
    refs.insert("Main.im".into(), json!({"type": "imP", "id": 0, "polDeg": n, "isArray": false}));
    let pil = json!({
        "nCommitments": next[0], "nQ": 0, "nIm": 1, "nConstants": next[1], "publics": [],
        "references": refs, "expressions": [], "polIdentities": [], "plookupIdentities": [],
        "permutationIdentities": [], "connectionIdentities": [],
    });
    (pil, next[0], next[1], n)
}
fn row_major(cols: &[Vec<u64>]) -> Vec<u8> {
    let mut out = vec![];
    for j in 0..cols[0].len() {
        for c in cols {
            out.extend_from_slice(&c[j].to_le_bytes());
        }
    }
    out
}

struct Meter {
    next: u64,
    len: u64,
    wrong: Option<u64>,
}
fn numbered(k: u64) -> u64 {
    k.wrapping_mul(0x9E3779B97F4A7C15) >> 3
}
impl Write for Meter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        for w in b.chunks(8) {
            if w != numbered(self.next).to_le_bytes() && self.wrong.is_none() && self.next < self.len {
                self.wrong = Some(self.next);
            }
            self.next += 1;
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// More values than the buffers of save and load hold.
fn large() -> Run {
    let (cols, n) = *pick_of(&[(5usize, 1usize << 23), (9, 1 << 22), (33, 1 << 20), (3, 1 << 24)]);
    let total = (cols * n) as u64;
    log(format!("large: {cols} x {n}"));
    count("large_files", 1);
    let array = |fill: bool| -> Vec<Vec<FGL>> {
        (0..cols)
            .map(|i| {
                (0..n)
                    .map(|j| if fill { FGL::from(numbered((j * cols + i) as u64)) } else { FGL::ZERO })
                    .collect()
            })
            .collect()
    };
    let mut a = PolsArray { nPols: cols, n, array: array(true), ..Default::default() };
    let mut m = Meter { next: 0, len: total, wrong: None };
    if let Err(e) = a.save(&mut m) {
        return viol("polsarray: save failed", e);
    }
    if m.next != total || m.wrong.is_some() {
        return viol(
            "polsarray: saved file is not the array",
            format!("{cols} x {n}: {} values written of {total}, first wrong {:?}", m.next, m.wrong),
        );
    }
    let mut bytes = Vec::with_capacity(total as usize * 8);
    for k in 0..total {
        bytes.extend_from_slice(&numbered(k).to_le_bytes());
    }
    simfs::put("/simfs/large", &bytes);
    drop(bytes);
    for c in a.array.iter_mut() {
        c.iter_mut().for_each(|x| *x = FGL::ZERO);
    }
    let (r, failed) = on_disk(|| a.load("/simfs/large"));
    match r {
        Ok(Ok(())) => {}
        _ if failed => return Ok(()),
        r => return viol("polsarray: load failed without a cause", outcome(&r)),
    }
    for k in 0..total {
        let (i, j) = (k as usize % cols, k as usize / cols);
        if a.array[i][j].as_int() != numbered(k) {
            return viol("polsarray: loaded array is not the file", format!("{cols} x {n}: value {k}"));
        }
    }
    Ok(())
}

fn trace_file() -> Run {
    let mut r = pick_rng();
    let (pil, n_cm, n_const, n) = references(&mut r);
    let pil: PIL = serde_json::from_value(pil).expect("pil");
    let commit = one_in(2);
    let cols = if commit { n_cm } else { n_const };
    let kind = || if commit { PolKind::Commit } else { PolKind::Constant };
    let what = format!("{cols} x {n} {}", if commit { "committed" } else { "constant" });
    log(what.clone());
    let data: Vec<Vec<u64>> =
        (0..cols).map(|_| elems(n, &mut r).iter().map(|e| e.as_int()).collect()).collect();
    let want = row_major(&data);
    let mut a = PolsArray::new(&pil, kind());
    if a.nPols != cols || a.n != n || a.array.len() != cols || a.array.iter().any(|c| c.len() != n) {
        return viol("polsarray: wrong shape", what);
    }
    // filled through the names, as the compressor does
    for (name, f) in pil.references.iter() {
        if f.type_ != if commit { "cmP" } else { "constP" } {
            continue;
        }
        let (ns, np) = name.split_once('.').unwrap();
        for i in 0..f.len.unwrap_or(1) {
            for j in 0..n {
                let v = FGL::from(data[f.id + i][j]);
                a.set_matrix(&pil, &ns.to_string(), &np.to_string(), i, j, v);
            }
        }
    }
    for (i, c) in data.iter().enumerate() {
        for j in 0..n {
            if a.array[i][j].as_int() != c[j] {
                return viol("polsarray: value stored in the wrong place", format!("{what}: column {i}"));
            }
        }
    }
    // as rows, by all workers
    let rows: Vec<F3G> = a.write_buff();
    if rows.len() != cols * n
        || (0..cols * n).any(|k| rows[k] != F3G::from(FGL::from(data[k % cols][k / cols])))
    {
        return viol("polsarray: row buffer is not the array", what);
    }
    // an older file may be there, longer or shorter
    if one_in(3) {
        simfs::put("/simfs/t", &vec![0x5au8; pick(2 * want.len() + 9)]);
    }
    for _ in 0..1 + pick(2) {
        let (s, failed) = on_disk(|| -> anyhow::Result<()> {
            let f = File::create("/simfs/t")?;
            a.save(f)
        });
        count("saves", 1);
        state_of(&("save", outcome(&s), failed));
        let crashed = matches!(&s, Ok(Ok(()))) && simfs::get("/simfs/t").as_deref() != Some(&want[..]);
        match s {
            // a crash right after the last write may still lose it: nothing was synced
            Ok(Ok(())) if crashed && failed => {}
            Ok(Ok(())) if crashed => {
                return viol("polsarray: saved file is not the array", what);
            }
            Ok(Ok(())) => {}
            _ if failed => {}
            s => return viol("polsarray: save failed without a cause", format!("{what}: {}", outcome(&s))),
        }
    }
    // what a later process finds: the whole file, a part of it, or more than it
    let mut file = want.clone();
    match pick(4) {
        1 => file.truncate(pick(want.len())),
        2 => file.truncate(want.len() - 1 - pick(8.min(want.len()))),
        3 => file.extend_from_slice(&vec![7; 1 + pick(40)]),
        _ => {}
    }
    simfs::put("/simfs/t", &file);
    for _ in 0..1 + pick(3) {
        let mut b = PolsArray::new(&pil, kind());
        let (l, failed) = on_disk(|| b.load("/simfs/t"));
        simfs::put("/simfs/t", &file);
        count("loads", 1);
        state_of(&("load", outcome(&l), failed, file.len().cmp(&want.len())));
        match l {
            Ok(Ok(())) if file.len() < want.len() => {
                return viol(
                    "polsarray: short file loaded",
                    format!("{what}: {} of {} bytes", file.len(), want.len()),
                )
            }
            Ok(Ok(())) => {
                if (0..cols * n).any(|k| b.array[k % cols][k / cols].as_int() != data[k % cols][k / cols]) {
                    return viol("polsarray: loaded array is not the file", what);
                }
            }
            _ if failed || file.len() < want.len() => {}
            l => return viol("polsarray: load failed without a cause", format!("{what}: {}", outcome(&l))),
        }
    }
    Ok(())
}

fn exec_file() -> Run {
    let mut r = pick_rng();
    let v: Vec<u64> = (0..pick(40))
        .map(|_| match r.below(4) {
            0 => r.below(10),
            1 => u64::MAX - r.below(3),
            _ => r.next(),
        })
        .collect();
    let want = serde_json::to_string(&v).unwrap().into_bytes();
    log(format!("exec file of {} numbers", v.len()));
    let (s, failed) = on_disk(|| -> anyhow::Result<()> {
        let mut f = File::create("/simfs/e")?;
        recursion::io_utils::write_vec_to_file(&mut f, &v)
    });
    count("saves", 1);
    match s {
        Ok(Ok(())) if !failed && simfs::get("/simfs/e") != Some(want.clone()) => {
            return viol("exec file: what was saved is not the vector", v.len())
        }
        Ok(Ok(())) => {}
        _ if failed => {}
        s => return viol("exec file: save failed without a cause", outcome(&s)),
    }
    let mut file = want.clone();
    if one_in(3) {
        file.truncate(pick(want.len()));
    }
    simfs::put("/simfs/e", &file);
    let (l, failed) = on_disk(|| recursion::io_utils::read_vec_from_file(File::open("/simfs/e")?));
    count("loads", 1);
    match l {
        Ok(Ok(x)) if x != v || file.len() < want.len() => {
            viol("exec file: what was loaded is not the vector", format!("{v:?}: {x:?}"))
        }
        Ok(Ok(_)) => Ok(()),
        _ if failed || file.len() < want.len() => Ok(()),
        l => viol("exec file: load failed without a cause", outcome(&l)),
    }
}

pub fn traces() -> Run {
    simcore::set_faults(false);
    if one_in(400) {
        return large();
    }
    for _ in 0..1 + pick(3) {
        match pick(4) {
            3 => exec_file()?,
            _ => trace_file()?,
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ the proving command
fn command<S: Sys>() -> Run {
    let bits = if S::HASH == "GL" { 2 + pick(3) } else { 2 };
    let mut a: Air = air::generate(bits, 1 + pick(2));
    if one_in(4) {
        a.respell(&mut pick_rng());
    }
    let ss = air::stark_struct(&a, S::HASH);
    let (norm, skip, agg) = (one_in(2), one_in(2), one_in(2));
    let what = format!("{} {:?} 2^{bits} rows, norm {norm}, skip {skip}, agg {agg}", S::HASH, a.gadgets);
    log(what.clone());
    // what the command has to produce
    let st = match setup::<S>(&a, &ss) {
        Ok(s) => s,
        Err(e) => return viol("stark: setup failed", format!("{what}: {e}")),
    };
    let proof = match prove::<S>(&a, &ss, &st) {
        Ok(p) => p,
        Err(e) => return viol("stark: no proof for a valid trace", format!("{what}: {e}")),
    };
    if verify::<S>(&proof, &ss, &st) != Ok(true) {
        return viol("stark: genuine proof rejected", what);
    }
    let circuit = match circom_with::<S>(&a, &ss, agg && S::HASH == "GL", norm, skip) {
        Ok(c) => c,
        // no quotient is committed when every constraint is linear (see known-findings.json)
        Err(e) if st.starkinfo.q_deg == 0 => {
            return viol("stark: no verifier circuit for a linear system", format!("{what}: {e}"))
        }
        Err(e) => return viol("stark: no verifier circuit", format!("{what}: {e}")),
    };
    let mut inputs = BTreeMap::new();
    inputs.insert("/simfs/in/pil.json".to_string(), a.pil_json().to_string().into_bytes());
    inputs.insert("/simfs/in/ss.json".to_string(), serde_json::to_vec(&ss).unwrap());
    inputs.insert("/simfs/in/const".to_string(), row_major(&a.cons));
    inputs.insert("/simfs/in/cm".to_string(), row_major(&a.cm));
    let mut refused = false;
    if one_in(6) {
        let k = pick_of(&inputs.keys().cloned().collect::<Vec<_>>()).clone();
        if one_in(4) {
            inputs.remove(&k);
        } else {
            let d = inputs.get_mut(&k).unwrap();
            d.truncate(pick(d.len()));
        }
        refused = true;
        log(format!("{k} is missing or cut short"));
    }
    let outputs = [
        ("/simfs/in/v.circom".to_string(), circuit.into_bytes()),
        ("/simfs/in/zkin.json".to_string(), serde_json::to_vec(&proof).unwrap()),
    ];
    until_done("stark_prove", &inputs, &outputs, refused, || {
        starky::prove::stark_prove(
            "/simfs/in/ss.json",
            "/simfs/in/pil.json",
            norm,
            skip,
            agg,
            "/simfs/in/const",
            "/simfs/in/cm",
            "/simfs/in/v.circom",
            "/simfs/in/zkin.json",
            ADDR,
        )
    })
}
pub fn prove_command() -> Run {
    simcore::set_faults(false);
    match pick(24) {
        22 => command::<SBn>(),
        23 => command::<SBls>(),
        _ => command::<SGl>(),
    }
}

// ------------------------------------------------------------------ joining two proofs
fn some_value(r: &mut Rng, depth: u64) -> Value {
    match r.below(if depth == 0 { 3 } else { 5 }) {
        0 => json!(r.next().to_string()),
        1 => json!(r.next()),
        2 => json!("\"\\ é\u{1}"),
        3 => Value::Array((0..r.below(5)).map(|_| some_value(r, depth - 1)).collect()),
        _ => json!({"k": some_value(r, depth - 1)}),
    }
}
fn zkin(r: &mut Rng) -> Value {
    let mut m = Map::new();
    for k in ["root1", "root2", "evals", "s0_vals1", "s0_siblings1", "finalPol", "b_publics", "rootC", "x"] {
        if r.below(3) > 0 {
            m.insert(k.into(), some_value(r, 2));
        }
    }
    if r.below(8) > 0 {
        let n = r.below(12);
        m.insert("publics".into(), (0..n).map(|_| json!(r.next().to_string())).collect());
    }
    Value::Object(m)
}
pub fn join() -> Run {
    simcore::set_faults(false);
    let mut r = pick_rng();
    let (a, b) = (zkin(&mut r), zkin(&mut r));
    let mut want = BTreeMap::new();
    for (k, v) in a.as_object().unwrap() {
        want.insert(format!("a_{k}"), v.clone());
    }
    if let Some(v) = a.get("rootC") {
        want.insert("rootC".into(), v.clone());
    }
    if let Some(p) = a.get("publics").and_then(|p| p.as_array()) {
        let keep = if p.len() >= 4 { p.len() - 4 } else { p.len() };
        want.insert("publics".into(), Value::Array(p[..keep].to_vec()));
    }
    for (k, v) in b.as_object().unwrap() {
        want.insert(format!("b_{k}"), v.clone());
    }
    let mut inputs = BTreeMap::new();
    inputs.insert("/simfs/a.json".to_string(), serde_json::to_vec(&a).unwrap());
    inputs.insert("/simfs/b.json".to_string(), serde_json::to_vec(&b).unwrap());
    let mut refused = false;
    if one_in(6) {
        let k = ["/simfs/a.json", "/simfs/b.json"][pick(2)];
        let d = inputs.get_mut(k).unwrap();
        d.truncate(pick(d.len()));
        refused = true;
    }
    let outputs = [("/simfs/out.json".to_string(), serde_json::to_vec(&want).unwrap())];
    let n = |s: &str| s.to_string();
    until_done("join_zkin", &inputs, &outputs, refused, || {
        starky::zkin_join::join_zkin(&n("/simfs/a.json"), &n("/simfs/b.json"), &n("/simfs/out.json"))
    })
}
