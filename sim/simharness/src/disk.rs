//! What the workloads share: worker configurations, caller threads, and commands run on a failing disk.
use crate::*;
use serde_json::Value;
use simcore::simfs::{self, FsStats};
use simcore::{Kind, Rng, SimConfig};
use std::collections::BTreeMap;

/// CPU count, pool size and how wild the schedule is.
pub fn sched_config(rng: &mut Rng, c: &mut SimConfig) {
    c.cpus = *[1, 2, 2, 3, 4, 5, 8, 9, 17, 64].get(rng.below(10) as usize).unwrap();
    c.rayon_threads = *[1, 2, 2, 3, 4, 6, 8].get(rng.below(7) as usize).unwrap();
    let p = *[0.0, 0.02, 0.2, 0.5].get(rng.below(4) as usize).unwrap();
    c.p[Kind::Preempt as usize] = p;
    c.p[Kind::NextThread as usize] = *[0.1, 0.5, 0.9].get(rng.below(3) as usize).unwrap();
    c.p[Kind::Steal as usize] = *[0.0, 0.1, 0.5, 0.9].get(rng.below(4) as usize).unwrap();
    c.p[Kind::Wakeup as usize] = 0.1;
}

pub struct Fiber<T> {
    id: usize,
    out: std::sync::Arc<std::sync::Mutex<Option<Result<T, Viol>>>>,
}
/// A caller thread; a panic in it is a violation unless it is caught by the workload.
pub fn fiber<T: Send + 'static>(
    name: &'static str,
    f: impl FnOnce() -> Result<T, Viol> + Send + 'static,
) -> Fiber<T> {
    let out = std::sync::Arc::new(std::sync::Mutex::new(None));
    let o = out.clone();
    let id = simcore::spawn_fiber(name, false, Box::new(move || {
        let r = match guarded(f) {
            Ok(r) => r,
            Err(p) => viol("panic", p),
        };
        *o.lock().unwrap() = Some(r);
    }));
    Fiber { id, out }
}
impl<T> Fiber<T> {
    pub fn join(self) -> Result<T, Viol> {
        simcore::join_fiber(self.id);
        self.out.lock().unwrap().take().expect("fiber result")
    }
}

// ------------------------------------------------------------------ the disk
/// The faults of a run: none, those every program must absorb, or those it must report.
pub fn disk_config(rng: &mut Rng, c: &mut SimConfig) {
    sched_config(rng, c);
    let mode = rng.below(6);
    if mode == 0 {
        return;
    }
    let p = [0.02, 0.1, 0.5, 0.9];
    let mut some = |k: Kind, one_in: u64, scale: f64| {
        if rng.below(one_in) == 0 {
            c.p[k as usize] = p[rng.below(4) as usize] * scale;
        }
    };
    some(Kind::ShortRead, 2, 1.0);
    some(Kind::ShortWrite, 2, 1.0);
    some(Kind::Eintr, 2, 0.7);
    if mode > 3 {
        some(Kind::ReadErr, 2, 0.3);
        some(Kind::WriteErr, 2, 0.3);
        some(Kind::OpenErr, 3, 0.3);
        some(Kind::CloseErr, 3, 0.5);
    }
}

/// How often calls failed for good, or were cut off.
fn hard(s: &FsStats) -> u64 {
    s.eio_read + s.eio_write + s.open_errors + s.enospc + s.calls_after_crash
}

static CRASHED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Whether the machine went down during the last `on_disk`.
pub fn crashed() -> bool {
    CRASHED.load(std::sync::atomic::Ordering::Relaxed)
}
/// Space on the disk and the moment of a crash, while `f` runs; whether anything failed for good.
pub fn on_disk<R>(f: impl FnOnce() -> R) -> (Result<R, String>, bool) {
    let before = hard(&simfs::stats());
    match pick(8) {
        1 => simfs::set_quota(Some(pick(3000))),
        2 => simfs::set_quota(Some(pick(200_000))),
        3 => simfs::crash_after(Some(pick(40) as u64)),
        4 => simfs::crash_after(Some(pick(600) as u64)),
        _ => {}
    }
    simcore::set_faults(true);
    let r = guarded(f);
    simcore::set_faults(false);
    let dead = simfs::is_dead();
    CRASHED.store(dead, std::sync::atomic::Ordering::Relaxed);
    let failed = dead || hard(&simfs::stats()) > before;
    simfs::set_quota(None);
    simfs::crash_after(None);
    if dead {
        count("crashes", 1);
        simfs::restart(one_in(2));
    }
    (r, failed)
}
pub fn outcome<T, E: std::fmt::Display>(r: &Result<Result<T, E>, String>) -> String {
    match r {
        Ok(Ok(_)) => "Ok".into(),
        Ok(Err(e)) => format!("Err({})", short(&e.to_string(), 80)),
        Err(p) => format!("panic({})", short(p, 80)),
    }
}

/// Runs `cmd` until it succeeds, first with faults and then without; after every attempt each output
/// is what it was, incomplete, or the expected one.
pub fn until_done<E: std::fmt::Display>(
    what: &str,
    inputs: &BTreeMap<String, Vec<u8>>,
    outputs: &[(String, Vec<u8>)],
    refused: bool,
    cmd: impl Fn() -> Result<(), E>,
) -> Run {
    for (p, d) in inputs {
        simfs::put(p, d);
    }
    for (p, want) in outputs {
        match pick(4) {
            1 => simfs::put(p, &vec![b'x'; pick(2 * want.len())]),
            2 => {
                let mut old = want.clone();
                old.extend_from_slice(b"}}]] older and longer");
                simfs::put(p, &old);
            }
            _ => simfs::remove(p),
        }
    }
    let attempts = pick(4);
    for k in 0..attempts + 1 {
        let last = k == attempts;
        let before: Vec<_> = outputs.iter().map(|(p, _)| simfs::get(p)).collect();
        let (r, failed) = if last { (guarded(&cmd), false) } else { on_disk(&cmd) };
        let out = outcome(&r);
        count(if last { "clean_attempts" } else { "faulty_attempts" }, 1);
        log(format!("attempt {k}: {out}, failed calls: {failed}"));
        state_of(&(out.split('(').next(), failed, last));
        for (p, d) in inputs {
            if simfs::get(p).as_ref() != Some(d) {
                return viol(format!("{what}: input changed"), p);
            }
        }
        let ok = matches!(r, Ok(Ok(())));
        if refused {
            if ok {
                return viol(format!("{what}: damaged input accepted"), out);
            }
            continue;
        }
        if !ok && !failed {
            return viol(format!("{what}: failed without a cause"), out);
        }
        for ((p, want), old) in outputs.iter().zip(&before) {
            let now = simfs::get(p);
            if now.as_ref() == Some(want) {
                continue;
            }
            // a success that did not survive the machine going down was not promised
            if ok && !(failed && crashed()) {
                return viol(
                    format!("{what}: reported success but an output is not complete"),
                    format!("{p}: {:?} bytes of {}", now.map(|d| d.len()), want.len()),
                );
            }
            // whatever a failed run leaves must not pass for a result
            if now != *old && p.ends_with(".json") {
                if let Ok(v) = serde_json::from_slice::<Value>(&now.unwrap_or_default()) {
                    return viol(
                        format!("{what}: a failed run left something that reads as a result"),
                        format!("{p}: {}", short(&v.to_string(), 200)),
                    );
                }
            }
        }
        if ok && failed {
            count("succeeded_in_spite", 1);
        }
    }
    Ok(())
}

