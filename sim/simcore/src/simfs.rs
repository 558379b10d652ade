//! The simulated disk. Everything below /simfs/ lives here: the real code of the system under
//! test calls open/read/write/... as usual and `interpose` routes the call here when it comes from
//! a simulated thread.
use crate::sched::{choose, choose_uniform, note, Kind};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

pub const ROOT: &str = "/simfs/";
pub const FD0: i32 = 1_500_000_000;

#[derive(Clone, Debug, Default)]
struct Pending {
    off: usize,
    data: Vec<u8>,
    trunc: Option<usize>,
}

#[derive(Clone, Debug, Default)]
struct Inode {
    data: Vec<u8>,
    durable: Vec<u8>,
    pending: Vec<Pending>,
}

#[derive(Clone, Debug)]
struct Fd {
    ino: u64,
    pos: usize,
    append: bool,
    r: bool,
    w: bool,
    is_dir: bool,
    werr: bool,
}

#[derive(Default, Clone, Debug)]
pub struct FsStats {
    pub opens: u64,
    pub reads: u64,
    pub writes: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub short_reads: u64,
    pub short_writes: u64,
    pub eintr: u64,
    pub eio_read: u64,
    pub eio_write: u64,
    pub enospc: u64,
    pub open_errors: u64,
    pub sync_errors: u64,
    pub close_errors: u64,
    pub crashes: u64,
    pub torn: u64,
    pub lost_writes: u64,
    pub calls_after_crash: u64,
}

#[derive(Default)]
pub struct Fs {
    names: BTreeMap<String, u64>,
    dirs: BTreeSet<String>,
    inodes: BTreeMap<u64, Inode>,
    fds: BTreeMap<i32, Fd>,
    next_ino: u64,
    next_fd: i32,
    pub stats: FsStats,
    quota: Option<usize>,
    crash_after: Option<u64>,
    calls: u64,
    dead: bool,
    write_back_cache: bool,
}

pub static FS: Mutex<Option<Fs>> = Mutex::new(None);

pub fn with<R>(f: impl FnOnce(&mut Fs) -> R) -> R {
    let mut g = FS.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(Fs::new());
    }
    f(g.as_mut().unwrap())
}

/// Fresh empty disk.
pub fn reset() {
    *FS.lock().unwrap_or_else(|e| e.into_inner()) = Some(Fs::new());
}
pub fn put(path: &str, data: &[u8]) {
    with(|f| {
        let ino = f.create(path);
        let i = f.inodes.get_mut(&ino).unwrap();
        i.data = data.to_vec();
        i.durable = data.to_vec();
        i.pending.clear();
    })
}
pub fn get(path: &str) -> Option<Vec<u8>> {
    with(|f| f.names.get(path).map(|i| f.inodes[i].data.clone()))
}
pub fn exists(path: &str) -> bool {
    with(|f| f.names.contains_key(path))
}
pub fn remove(path: &str) {
    with(|f| {
        f.names.remove(path);
    })
}
pub fn list() -> Vec<(String, usize)> {
    with(|f| f.names.iter().map(|(n, i)| (n.clone(), f.inodes[i].data.len())).collect())
}
pub fn open_fds() -> usize {
    with(|f| f.fds.len())
}
pub fn stats() -> FsStats {
    with(|f| f.stats.clone())
}
/// Bytes that can still be written before the disk is full.
pub fn set_quota(q: Option<usize>) {
    with(|f| f.quota = q)
}
/// The process dies at the n-th file system call from now: that call and all later ones fail and
/// change nothing.
pub fn crash_after(n: Option<u64>) {
    with(|f| {
        f.crash_after = n.map(|n| f.calls + n);
        f.dead = false;
    })
}
pub fn calls() -> u64 {
    with(|f| f.calls)
}
pub fn is_dead() -> bool {
    with(|f| f.dead)
}
/// Restart after a crash. `power_loss`: everything not synced may be lost, cut short or left as a
/// zero-filled hole, file by file, as the seeded scheduler decides.
pub fn restart(power_loss: bool) {
    let paths: Vec<u64> = with(|f| {
        f.dead = false;
        f.crash_after = None;
        f.fds.clear();
        f.stats.crashes += 1;
        f.names.values().copied().collect()
    });
    if !power_loss {
        with(|f| {
            for i in f.inodes.values_mut() {
                i.durable = i.data.clone();
                i.pending.clear();
            }
        });
        return;
    }
    for ino in paths {
        let (n, last) = with(|f| {
            let i = &f.inodes[&ino];
            (i.pending.len(), i.pending.last().map(|p| p.data.len()).unwrap_or(0))
        });
        if n == 0 {
            continue;
        }
        let keep = choose_uniform(Kind::Crash, n + 1);
        let tear = if keep > 0 && last > 0 { choose_uniform(Kind::TornWrite, 3) } else { 0 };
        with(|f| {
            let i = f.inodes.get_mut(&ino).unwrap();
            let full_len = i.data.len();
            let mut d = i.durable.clone();
            for (k, p) in i.pending.iter().take(keep).enumerate() {
                if let Some(t) = p.trunc {
                    d.resize(t, 0);
                    continue;
                }
                let mut data = &p.data[..];
                if k + 1 == keep && tear == 1 {
                    data = &data[..data.len() / 2];
                    f.stats.torn += 1;
                }
                if d.len() < p.off + data.len() {
                    d.resize(p.off + data.len(), 0);
                }
                d[p.off..p.off + data.len()].copy_from_slice(data);
            }
            if keep < n {
                f.stats.lost_writes += (n - keep) as u64;
            }
            if tear == 2 && d.len() < full_len {
                // length reached the disk, data did not
                d.resize(full_len, 0);
                f.stats.torn += 1;
            }
            i.data = d.clone();
            i.durable = d;
            i.pending.clear();
        });
    }
}

fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

impl Fs {
    fn new() -> Fs {
        let mut f = Fs { next_ino: 1, next_fd: FD0, write_back_cache: true, ..Default::default() };
        f.dirs.insert("/simfs".into());
        f
    }
    fn create(&mut self, path: &str) -> u64 {
        let path = norm(path);
        if let Some(i) = self.names.get(&path) {
            return *i;
        }
        let ino = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(ino, Inode::default());
        let mut d = path.clone();
        while let Some(k) = d.rfind('/') {
            d.truncate(k);
            if d.is_empty() {
                break;
            }
            self.dirs.insert(d.clone());
        }
        self.names.insert(path, ino);
        ino
    }
    fn tick(&mut self) -> bool {
        self.calls += 1;
        if self.dead {
            self.stats.calls_after_crash += 1;
            return false;
        }
        if let Some(c) = self.crash_after {
            if self.calls > c {
                self.dead = true;
                return false;
            }
        }
        true
    }
}

pub type R = Result<i64, i32>;
use libc::*;

fn alive() -> Result<(), i32> {
    if with(|f| f.tick()) {
        Ok(())
    } else {
        Err(EIO)
    }
}

pub fn is_sim_path(p: &str) -> bool {
    p.starts_with(ROOT) || p == "/simfs"
}
pub fn is_sim_fd(fd: i32) -> bool {
    fd >= FD0
}

pub fn open(path: &str, flags: i32) -> R {
    note(0x0f01);
    alive()?;
    let path = norm(path);
    if choose(Kind::OpenErr, 2) == 1 {
        with(|f| f.stats.open_errors += 1);
        return Err(EMFILE);
    }
    with(|f| {
        f.stats.opens += 1;
        let acc = flags & O_ACCMODE;
        let w = acc == O_WRONLY || acc == O_RDWR;
        let r = acc == O_RDONLY || acc == O_RDWR;
        if f.dirs.contains(&path) && !f.names.contains_key(&path) {
            if w {
                return Err(EISDIR);
            }
            let fd = f.next_fd;
            f.next_fd += 1;
            f.fds.insert(
                fd,
                Fd { ino: 0, pos: 0, append: false, r, w, is_dir: true, werr: false },
            );
            return Ok(fd as i64);
        }
        let ex = f.names.contains_key(&path);
        if !ex && flags & O_CREAT == 0 {
            return Err(ENOENT);
        }
        if ex && flags & O_CREAT != 0 && flags & O_EXCL != 0 {
            return Err(EEXIST);
        }
        let parent = match path.rfind('/') {
            Some(k) if k > 0 => path[..k].to_string(),
            _ => "/".into(),
        };
        if !ex && !f.dirs.contains(&parent) {
            return Err(ENOENT);
        }
        let ino = f.create(&path);
        if flags & O_TRUNC != 0 && w {
            let i = f.inodes.get_mut(&ino).unwrap();
            i.data.clear();
            i.pending.push(Pending { off: 0, data: vec![], trunc: Some(0) });
        }
        let fd = f.next_fd;
        f.next_fd += 1;
        f.fds.insert(
            fd,
            Fd { ino, pos: 0, append: flags & O_APPEND != 0, r, w, is_dir: false, werr: false },
        );
        Ok(fd as i64)
    })
}

pub fn close(fd: i32) -> R {
    note(0x0f02);
    let err = choose(Kind::CloseErr, 2) == 1;
    with(|f| {
        if f.fds.remove(&fd).is_none() {
            return Err(EBADF);
        }
        if err {
            f.stats.close_errors += 1;
            return Err(EIO);
        }
        Ok(0)
    })
}

fn pick_len(kind: Kind, n: usize) -> usize {
    // default: the full length
    match choose(kind, 5) {
        0 => n,
        1 => 1.min(n),
        2 => (n / 2).max(1),
        3 => n.saturating_sub(1).max(1),
        _ => 1 + choose_uniform(Kind::ShortRead, n),
    }
}

pub fn read_at(fd: i32, buf: &mut [u8], off: Option<usize>) -> R {
    alive()?;
    if choose(Kind::Eintr, 2) == 1 {
        with(|f| f.stats.eintr += 1);
        return Err(EINTR);
    }
    if choose(Kind::ReadErr, 2) == 1 {
        with(|f| f.stats.eio_read += 1);
        return Err(EIO);
    }
    let avail = with(|f| {
        let d = f.fds.get(&fd).ok_or(EBADF)?;
        if d.is_dir {
            return Err(EISDIR);
        }
        if !d.r {
            return Err(EBADF);
        }
        let i = &f.inodes[&d.ino];
        let p = off.unwrap_or(d.pos);
        Ok(i.data.len().saturating_sub(p))
    })?;
    let want = avail.min(buf.len());
    let n = if want > 1 { pick_len(Kind::ShortRead, want) } else { want };
    note(0x0f03 ^ (n as u64) << 16);
    with(|f| {
        f.stats.reads += 1;
        if n < want {
            f.stats.short_reads += 1;
        }
        f.stats.bytes_read += n as u64;
        let d = f.fds.get_mut(&fd).unwrap();
        let p = off.unwrap_or(d.pos);
        let i = &f.inodes[&d.ino];
        // past the end there is nothing to read
        if n > 0 {
            buf[..n].copy_from_slice(&i.data[p..p + n]);
        }
        if off.is_none() {
            d.pos += n;
        }
        Ok(n as i64)
    })
}

pub fn write_at(fd: i32, buf: &[u8], off: Option<usize>) -> R {
    alive()?;
    if choose(Kind::Eintr, 2) == 1 {
        with(|f| f.stats.eintr += 1);
        return Err(EINTR);
    }
    if choose(Kind::WriteErr, 2) == 1 {
        with(|f| f.stats.eio_write += 1);
        return Err(EIO);
    }
    let mut n = if buf.len() > 1 { pick_len(Kind::ShortWrite, buf.len()) } else { buf.len() };
    note(0x0f04 ^ (n as u64) << 16);
    with(|f| {
        let d = f.fds.get_mut(&fd).ok_or(EBADF)?;
        if !d.w {
            return Err(EBADF);
        }
        f.stats.writes += 1;
        if n < buf.len() {
            f.stats.short_writes += 1;
        }
        if let Some(q) = f.quota {
            if q == 0 && n > 0 {
                f.stats.enospc += 1;
                return Err(ENOSPC);
            }
            if n > q {
                n = q;
                f.stats.short_writes += 1;
            }
            f.quota = Some(q - n);
        }
        let i = f.inodes.get_mut(&d.ino).unwrap();
        let p = if d.append { i.data.len() } else { off.unwrap_or(d.pos) };
        if i.data.len() < p + n {
            i.data.resize(p + n, 0);
        }
        i.data[p..p + n].copy_from_slice(&buf[..n]);
        i.pending.push(Pending { off: p, data: buf[..n].to_vec(), trunc: None });
        if off.is_none() {
            d.pos = p + n;
        }
        f.stats.bytes_written += n as u64;
        Ok(n as i64)
    })
}

pub fn lseek(fd: i32, off: i64, whence: i32) -> R {
    alive()?;
    with(|f| {
        let d = f.fds.get_mut(&fd).ok_or(EBADF)?;
        let len = if d.is_dir { 0 } else { f.inodes[&d.ino].data.len() as i64 };
        let np = match whence {
            SEEK_SET => off,
            SEEK_CUR => d.pos as i64 + off,
            SEEK_END => len + off,
            _ => return Err(EINVAL),
        };
        if np < 0 {
            return Err(EINVAL);
        }
        d.pos = np as usize;
        Ok(np)
    })
}

pub fn fsync(fd: i32) -> R {
    note(0x0f05);
    alive()?;
    if choose(Kind::SyncErr, 2) == 1 {
        with(|f| f.stats.sync_errors += 1);
        return Err(EIO);
    }
    with(|f| {
        let d = f.fds.get(&fd).ok_or(EBADF)?;
        if let Some(i) = f.inodes.get_mut(&d.ino) {
            i.durable = i.data.clone();
            i.pending.clear();
        }
        Ok(0)
    })
}

pub fn ftruncate(fd: i32, len: usize) -> R {
    alive()?;
    with(|f| {
        let d = f.fds.get(&fd).ok_or(EBADF)?;
        let i = f.inodes.get_mut(&d.ino).ok_or(EBADF)?;
        i.data.resize(len, 0);
        i.pending.push(Pending { off: 0, data: vec![], trunc: Some(len) });
        Ok(0)
    })
}

/// (is_dir, size, ino)
pub fn stat_fd(fd: i32) -> Result<(bool, u64, u64), i32> {
    alive()?;
    with(|f| {
        let d = f.fds.get(&fd).ok_or(EBADF)?;
        if d.is_dir {
            Ok((true, 0, 0))
        } else {
            Ok((false, f.inodes[&d.ino].data.len() as u64, d.ino))
        }
    })
}
pub fn stat_path(p: &str) -> Result<(bool, u64, u64), i32> {
    alive()?;
    let p = norm(p);
    with(|f| {
        if let Some(i) = f.names.get(&p) {
            Ok((false, f.inodes[i].data.len() as u64, *i))
        } else if f.dirs.contains(&p) {
            Ok((true, 0, 0))
        } else {
            Err(ENOENT)
        }
    })
}
pub fn unlink(p: &str) -> R {
    note(0x0f06);
    alive()?;
    let p = norm(p);
    with(|f| f.names.remove(&p).map(|_| 0).ok_or(ENOENT))
}
pub fn rename(a: &str, b: &str) -> R {
    note(0x0f07);
    alive()?;
    let (a, b) = (norm(a), norm(b));
    with(|f| {
        let i = f.names.remove(&a).ok_or(ENOENT)?;
        f.names.insert(b, i);
        Ok(0)
    })
}
pub fn mkdir(p: &str) -> R {
    alive()?;
    let p = norm(p);
    with(|f| {
        if f.names.contains_key(&p) || f.dirs.contains(&p) {
            return Err(EEXIST);
        }
        f.dirs.insert(p);
        Ok(0)
    })
}
pub fn dup(fd: i32) -> R {
    with(|f| {
        let d = f.fds.get(&fd).ok_or(EBADF)?.clone();
        let n = f.next_fd;
        f.next_fd += 1;
        f.fds.insert(n, d);
        Ok(n as i64)
    })
}
