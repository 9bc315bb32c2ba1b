//! The seams: every source of nondeterminism the library can observe goes through the libc
//! symbols overridden here. Inside a simulated incarnation (thread-local `CTX` is set) the
//! simulated disk, clock and entropy answer; everywhere else the real system call is made.

use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

pub const SIMFD: i32 = 1 << 20;
pub const ROOT: &str = "/simdisk/";

pub const EINTR: i32 = 4;
pub const ENOENT: i32 = 2;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const ENOSYS: i32 = 38;
pub const ENOMEM: i32 = 12;
pub const EAGAIN: i32 = 11;

// ---------------------------------------------------------------- bytes as latin-1 json strings

pub mod bytes_str {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
        let t: String = b.iter().map(|c| *c as char).collect();
        s.serialize_str(&t)
    }
    pub fn deserialize<'a, D: Deserializer<'a>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        Ok(s.chars().map(|c| c as u32 as u8).collect())
    }
}

// ---------------------------------------------------------------- simulated disk

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Inode {
    #[serde(with = "bytes_str")]
    pub data: Vec<u8>,
    #[serde(with = "bytes_str")]
    pub durable: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum JOp {
    Write {
        ino: usize,
        off: usize,
        #[serde(with = "bytes_str")]
        bytes: Vec<u8>,
    },
    Trunc {
        ino: usize,
        len: usize,
    },
    Link {
        name: String,
        ino: usize,
    },
    Rename {
        from: String,
        to: String,
    },
    Unlink {
        name: String,
    },
}

impl JOp {
    fn ino(&self) -> Option<usize> {
        match self {
            JOp::Write { ino, .. } | JOp::Trunc { ino, .. } => Some(*ino),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Fd {
    pub ino: usize,
    pub pos: usize,
    pub append: bool,
    pub readable: bool,
    pub writable: bool,
}

/// What a crash does to the operations which had not been made durable.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct CrashSpec {
    /// number of journalled operations that (can) reach the medium
    pub keep: usize,
    /// bytes of the operation after those that reach the medium as well (torn write)
    pub torn: usize,
    /// lost 512-byte sectors: (operation index, sector index) pairs, taken modulo
    pub lost: Vec<(usize, usize)>,
    /// operations which never reach the medium even though later ones do
    pub dropped: Vec<usize>,
}

pub const SECTOR: usize = 512;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Disk {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    pub durable_names: BTreeMap<String, usize>,
    pub journal: Vec<JOp>,
    pub fds: Vec<Option<Fd>>,
    /// capacity in bytes over all files (full disk), `None` = unlimited
    pub capacity: Option<usize>,
}

impl Disk {
    /// places a file durably, outside of the simulated calls
    pub fn put(&mut self, name: &str, bytes: &[u8]) {
        let ino = self.inodes.len();
        self.inodes.push(Inode {
            data: bytes.to_vec(),
            durable: bytes.to_vec(),
        });
        self.names.insert(name.to_string(), ino);
        self.durable_names.insert(name.to_string(), ino);
    }
    pub fn get(&self, name: &str) -> Option<&[u8]> {
        self.names.get(name).map(|i| &self.inodes[*i].data[..])
    }
    pub fn used(&self) -> usize {
        self.inodes.iter().map(|i| i.data.len()).sum()
    }
    fn apply_durable(&mut self, op: &JOp, limit: Option<usize>, lost: &[usize]) {
        match op {
            JOp::Write { ino, off, bytes } => {
                let n = limit.unwrap_or(bytes.len()).min(bytes.len());
                let d = &mut self.inodes[*ino].durable;
                if n > 0 && d.len() < off + n {
                    d.resize(off + n, 0);
                }
                for i in 0..n {
                    if !lost.contains(&((off + i) / SECTOR)) {
                        d[off + i] = bytes[i];
                    }
                }
            }
            JOp::Trunc { ino, len } => self.inodes[*ino].durable.resize(*len, 0),
            JOp::Link { name, ino } => {
                self.durable_names.insert(name.clone(), *ino);
            }
            JOp::Rename { from, to } => {
                if let Some(i) = self.durable_names.remove(from) {
                    self.durable_names.insert(to.clone(), i);
                }
            }
            JOp::Unlink { name } => {
                self.durable_names.remove(name);
            }
        }
    }
    fn sync_ino(&mut self, ino: usize) {
        let ops = std::mem::take(&mut self.journal);
        for op in ops {
            let hit = match &op {
                JOp::Link { ino: i, .. } => *i == ino,
                o => o.ino() == Some(ino),
            };
            if hit {
                self.apply_durable(&op, None, &[]);
            } else {
                self.journal.push(op);
            }
        }
    }
    /// makes everything durable
    pub fn sync_all(&mut self) {
        let ops = std::mem::take(&mut self.journal);
        for op in ops {
            self.apply_durable(&op, None, &[]);
        }
    }
    /// The machine dies: only what is durable, and what the crash lets through, survives.
    /// Returns (applied, torn, dropped, lost sectors).
    pub fn crash(&mut self, spec: &CrashSpec) -> (u64, u64, u64, u64) {
        let ops = std::mem::take(&mut self.journal);
        let n = ops.len();
        let keep = spec.keep.min(n);
        let mut stat = (0, 0, (n - keep) as u64, 0);
        for (i, op) in ops.iter().enumerate() {
            if i > keep {
                break;
            }
            if i == keep {
                if let JOp::Write { bytes, .. } = op {
                    if spec.torn > 0 {
                        stat.1 += 1;
                        let t = spec.torn % (bytes.len() + 1);
                        self.apply_durable(op, Some(t), &[]);
                    }
                }
                break;
            }
            if spec.dropped.contains(&i) && op.ino().is_some() {
                stat.2 += 1;
                continue;
            }
            let mut lost = vec![];
            if let JOp::Write { off, bytes, .. } = op {
                let sectors = (off + bytes.len()).div_ceil(SECTOR).max(1);
                for (o, s) in &spec.lost {
                    if o % n == i {
                        lost.push(off / SECTOR + s % (sectors - off / SECTOR).max(1));
                    }
                }
            }
            stat.3 += lost.len() as u64;
            stat.0 += 1;
            self.apply_durable(op, None, &lost);
        }
        self.fds.clear();
        self.names = self.durable_names.clone();
        for i in &mut self.inodes {
            i.data = i.durable.clone();
        }
        stat
    }
}

// ---------------------------------------------------------------- I/O faults

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Call {
    Open,
    Stat,
    Read,
    Write,
    Seek,
    Sync,
    Close,
    Rename,
    Entropy,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum FaultKind {
    /// the call fails with this errno (once)
    Errno(i32),
    /// the call fails with this errno from now on
    Stuck(i32),
    /// the call transfers at most this many bytes
    Short(usize),
    /// the size reported by stat is this instead
    FakeSize(u64),
    /// the disk becomes full: at most this many more bytes can be written
    Full(usize),
    /// the file is changed by somebody else right before the call: truncated to n bytes
    TruncateTo(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IoFault {
    pub call: Call,
    /// the n-th call of that kind (from 0) since the faults were armed
    pub nth: u64,
    pub kind: FaultKind,
}

// ---------------------------------------------------------------- clock and entropy

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Clock {
    /// current reading in ns since 1970
    pub now: i128,
    /// advance (or jump) in ns after each realtime reading; the last one repeats
    pub steps: Vec<i64>,
    pub reads: u64,
    pub log: Vec<i128>,
}

impl Clock {
    pub fn read(&mut self) -> i128 {
        let t = self.now;
        if self.log.len() < 4096 {
            self.log.push(t);
        }
        let i = (self.reads as usize).min(self.steps.len().saturating_sub(1));
        if let Some(s) = self.steps.get(i) {
            self.now += *s as i128;
        }
        self.reads += 1;
        self.now = self.now.clamp(MIN_TIME, MAX_TIME);
        t
    }
}

pub const MIN_TIME: i128 = 0;
/// 9999-12-31T23:59:59
pub const MAX_TIME: i128 = 253402300799i128 * 1_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum EntropyMode {
    Prng(u64),
    /// blocks differ from each other only in the given bits of the 128-bit block: block k has
    /// bit positions[j] flipped iff bit j of k is set
    Counter { seed: u64, positions: Vec<u8> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Entropy {
    pub mode: EntropyMode,
    pub calls: u64,
}

impl Default for Entropy {
    fn default() -> Self {
        Self {
            mode: EntropyMode::Prng(0),
            calls: 0,
        }
    }
}

impl Entropy {
    pub fn fill(&mut self, buf: &mut [u8]) {
        let k = self.calls;
        self.calls += 1;
        match &self.mode {
            EntropyMode::Prng(seed) => {
                let mut r = crate::rng::Rng::new(crate::rng::mix(&[*seed, k]));
                for b in buf.iter_mut() {
                    *b = r.u64() as u8;
                }
            }
            EntropyMode::Counter { seed, positions } => {
                let mut r = crate::rng::Rng::new(*seed);
                let mut block: Vec<u8> = (0..16).map(|_| r.u64() as u8).collect();
                for (j, p) in positions.iter().enumerate() {
                    if j < 64 && k >> j & 1 == 1 {
                        block[(*p as usize / 8) % 16] ^= 1 << (p % 8);
                        // bits which the UUID version overwrites if the block is taken in one
                        // byte order, but not in the other
                        if matches!(p, 52..=55 | 70 | 71 | 76..=79 | 62 | 63) {
                            block[15 - (*p as usize / 8) % 16] ^= 1 << (p % 8);
                        }
                    }
                }
                for (i, b) in buf.iter_mut().enumerate() {
                    *b = block[i % 16];
                }
            }
        }
    }
}

// ---------------------------------------------------------------- context of an incarnation

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Ctx {
    pub disk: Disk,
    pub clock: Clock,
    pub entropy: Entropy,
    pub faults: Vec<IoFault>,
    pub counts: BTreeMap<String, u64>,
    /// how often each fault fired
    pub fired: BTreeMap<String, u64>,
    pub stuck: BTreeMap<String, i32>,
    pub full: Option<usize>,
    /// event log of the simulated calls (bounded)
    pub log: Vec<String>,
}

impl Ctx {
    /// arms new faults; call counting restarts
    pub fn arm(&mut self, faults: &[IoFault]) {
        self.faults = faults.to_vec();
        // (minimised plans may name error numbers no call returns)
        self.faults.retain(|f| match f.kind {
            FaultKind::Errno(e) | FaultKind::Stuck(e) => !errno_name(e).starts_with("errno"),
            _ => true,
        });
        self.counts.clear();
        self.stuck.clear();
        self.full = None;
    }
    fn event(&mut self, s: String) {
        if self.log.len() < 400 {
            self.log.push(s);
        }
    }
    fn fire(&mut self, what: String) {
        *self.fired.entry(what).or_default() += 1;
    }
    /// decides what happens to this call: Err(errno), Ok(Some(short)) or Ok(None)
    fn fault(&mut self, call: Call, ino: Option<usize>) -> Result<Option<usize>, i32> {
        let key = format!("{call:?}");
        let n = {
            let c = self.counts.entry(key.clone()).or_default();
            *c += 1;
            *c - 1
        };
        if let Some(e) = self.stuck.get(&key) {
            let e = *e;
            self.fire(format!("{key}:stuck"));
            return Err(e);
        }
        let mut res = Ok(None);
        for f in self.faults.clone() {
            if f.call == call && f.nth == n && res.is_ok() {
                match f.kind {
                    FaultKind::Errno(e) => {
                        self.fire(format!("{key}:{}", errno_name(e)));
                        res = Err(e);
                    }
                    FaultKind::Stuck(e) => {
                        self.stuck.insert(key.clone(), e);
                        self.fire(format!("{key}:stuck-{}", errno_name(e)));
                        res = Err(e);
                    }
                    FaultKind::Short(k) => {
                        self.fire(format!("{key}:short"));
                        if res.is_ok() {
                            res = Ok(Some(k.max(1)));
                        }
                    }
                    FaultKind::Full(k) => {
                        self.fire(format!("{key}:disk-full"));
                        self.full = Some(k);
                    }
                    FaultKind::TruncateTo(k) => {
                        if let Some(i) = ino {
                            if self.disk.inodes[i].data.len() > k {
                                self.fire(format!("{key}:truncated-underneath"));
                                self.disk.inodes[i].data.truncate(k);
                            }
                        }
                    }
                    FaultKind::FakeSize(_) => {}
                }
            }
        }
        res
    }
    fn fake_size(&mut self) -> Option<u64> {
        let n = self.counts.get("Stat").copied().unwrap_or(1).max(1) - 1;
        let mut r = None;
        for f in &self.faults {
            if f.call == Call::Stat && f.nth == n {
                if let FaultKind::FakeSize(s) = f.kind {
                    r = Some(s);
                }
            }
        }
        if r.is_some() {
            self.fire("Stat:wrong-size".into());
        }
        r
    }

    pub fn sys_open(&mut self, name: &str, flags: i32) -> Result<i32, i32> {
        self.fault(Call::Open, None)?;
        self.event(format!("open {name} {flags:#x}"));
        let acc = flags & 3;
        let creat = flags & 0o100 != 0;
        let excl = flags & 0o200 != 0;
        let trunc = flags & 0o1000 != 0;
        let ino = match self.disk.names.get(name) {
            Some(i) => {
                if creat && excl {
                    return Err(17);
                }
                *i
            }
            None => {
                if !creat {
                    return Err(ENOENT);
                }
                let i = self.disk.inodes.len();
                self.disk.inodes.push(Inode::default());
                self.disk.names.insert(name.to_string(), i);
                self.disk.journal.push(JOp::Link {
                    name: name.to_string(),
                    ino: i,
                });
                i
            }
        };
        if trunc && acc != 0 && !self.disk.inodes[ino].data.is_empty() {
            self.disk.inodes[ino].data.clear();
            self.disk.journal.push(JOp::Trunc { ino, len: 0 });
        }
        let fd = Fd {
            ino,
            pos: 0,
            append: flags & 0o2000 != 0,
            readable: acc == 0 || acc == 2,
            writable: acc == 1 || acc == 2,
        };
        self.disk.fds.push(Some(fd));
        Ok(SIMFD + self.disk.fds.len() as i32 - 1)
    }
    fn fd(&mut self, fd: i32) -> Result<&mut Fd, i32> {
        self.disk
            .fds
            .get_mut((fd - SIMFD) as usize)
            .and_then(|f| f.as_mut())
            .ok_or(EBADF)
    }
    pub fn sys_read(&mut self, fd: i32, buf: &mut [u8]) -> Result<usize, i32> {
        let f = self.fd(fd)?.clone();
        if !f.readable {
            return Err(EBADF);
        }
        let short = self.fault(Call::Read, Some(f.ino))?;
        let data = &self.disk.inodes[f.ino].data;
        let avail = data.len().saturating_sub(f.pos);
        let mut n = buf.len().min(avail);
        if let Some(s) = short {
            n = n.min(s);
        }
        if n > 0 {
            buf[..n].copy_from_slice(&data[f.pos..f.pos + n]);
        }
        self.fd(fd)?.pos += n;
        self.event(format!("read {n}"));
        Ok(n)
    }
    pub fn sys_write(&mut self, fd: i32, buf: &[u8]) -> Result<usize, i32> {
        let f = self.fd(fd)?.clone();
        if !f.writable {
            return Err(EBADF);
        }
        let short = self.fault(Call::Write, Some(f.ino))?;
        let mut n = buf.len();
        if let Some(s) = short {
            n = n.min(s);
        }
        if let Some(left) = self.full.or_else(|| {
            self.disk
                .capacity
                .map(|c| c.saturating_sub(self.disk.used()))
        }) {
            if left == 0 && n > 0 {
                self.fire("Write:ENOSPC".into());
                return Err(ENOSPC);
            }
            n = n.min(left);
            if self.full.is_some() {
                self.full = Some(left - n);
            }
        }
        let pos = if f.append {
            self.disk.inodes[f.ino].data.len()
        } else {
            f.pos
        };
        let d = &mut self.disk.inodes[f.ino].data;
        if d.len() < pos + n {
            d.resize(pos + n, 0);
        }
        d[pos..pos + n].copy_from_slice(&buf[..n]);
        self.disk.journal.push(JOp::Write {
            ino: f.ino,
            off: pos,
            bytes: buf[..n].to_vec(),
        });
        self.fd(fd)?.pos = pos + n;
        self.event(format!("write {n}"));
        Ok(n)
    }
    pub fn sys_fsync(&mut self, fd: i32) -> Result<i32, i32> {
        let f = self.fd(fd)?.clone();
        self.fault(Call::Sync, Some(f.ino))?;
        self.disk.sync_ino(f.ino);
        self.event("fsync".into());
        Ok(0)
    }
    pub fn sys_close(&mut self, fd: i32) -> Result<i32, i32> {
        self.fd(fd)?;
        self.disk.fds[(fd - SIMFD) as usize] = None;
        self.fault(Call::Close, None)?;
        Ok(0)
    }
    pub fn sys_size(&mut self, fd: i32) -> Result<u64, i32> {
        let f = self.fd(fd)?.clone();
        self.fault(Call::Stat, Some(f.ino))?;
        self.event("fstat".into());
        let real = self.disk.inodes[f.ino].data.len() as u64;
        Ok(self.fake_size().unwrap_or(real))
    }
    pub fn sys_lseek(&mut self, fd: i32, off: i64, whence: i32) -> Result<i64, i32> {
        let f = self.fd(fd)?.clone();
        self.fault(Call::Seek, Some(f.ino))?;
        self.event("lseek".into());
        let end = self.disk.inodes[f.ino].data.len() as i64;
        let p = match whence {
            0 => off,
            1 => f.pos as i64 + off,
            2 => end + off,
            _ => return Err(EINVAL),
        };
        if p < 0 {
            return Err(EINVAL);
        }
        self.fd(fd)?.pos = p as usize;
        Ok(p)
    }
    pub fn sys_ftruncate(&mut self, fd: i32, len: usize) -> Result<i32, i32> {
        let f = self.fd(fd)?.clone();
        self.disk.inodes[f.ino].data.resize(len, 0);
        self.disk.journal.push(JOp::Trunc { ino: f.ino, len });
        Ok(0)
    }
    pub fn sys_rename(&mut self, from: &str, to: &str) -> Result<i32, i32> {
        self.fault(Call::Rename, None)?;
        let i = self.disk.names.remove(from).ok_or(ENOENT)?;
        self.disk.names.insert(to.to_string(), i);
        self.disk.journal.push(JOp::Rename {
            from: from.into(),
            to: to.into(),
        });
        self.event(format!("rename {from} {to}"));
        Ok(0)
    }
    pub fn sys_unlink(&mut self, name: &str) -> Result<i32, i32> {
        self.disk.names.remove(name).ok_or(ENOENT)?;
        self.disk.journal.push(JOp::Unlink { name: name.into() });
        Ok(0)
    }
}

pub fn errno_name(e: i32) -> String {
    match e {
        EINTR => "EINTR".into(),
        ENOENT => "ENOENT".into(),
        EIO => "EIO".into(),
        EACCES => "EACCES".into(),
        EISDIR => "EISDIR".into(),
        EMFILE => "EMFILE".into(),
        ENOSPC => "ENOSPC".into(),
        ENOMEM => "ENOMEM".into(),
        EBADF => "EBADF".into(),
        EINVAL => "EINVAL".into(),
        e => format!("errno{e}"),
    }
}

thread_local! {
    pub static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    /// set while the harness itself runs inside of an incarnation, so that its own calls are not
    /// simulated
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

fn ctx() -> Option<&'static mut Ctx> {
    if BUSY.with(|b| b.get()) {
        return None;
    }
    let p = CTX.with(|c| c.get());
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> Option<T> {
    let c = ctx()?;
    BUSY.with(|b| b.set(true));
    let inside = unsafe { std::mem::replace(&mut crate::cov::INSIDE, true) };
    let r = f(c);
    unsafe { crate::cov::INSIDE = inside };
    BUSY.with(|b| b.set(false));
    Some(r)
}

#[inline(always)]
pub unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut c_int;
}

unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

unsafe fn res<T: TryInto<isize>>(r: Result<T, i32>) -> isize {
    match r {
        Ok(v) => v.try_into().ok().unwrap(),
        Err(e) => {
            *__errno_location() = e;
            -1
        }
    }
}

unsafe fn sim_path<'a>(p: *const c_char) -> Option<&'a str> {
    let s = CStr::from_ptr(p).to_str().ok()?;
    if s.starts_with(ROOT) {
        Some(s)
    } else {
        None
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    if let Some(s) = sim_path(p) {
        if let Some(r) = with(|c| c.sys_open(s, flags)) {
            return res(r) as c_int;
        }
    }
    ret(raw(2, p as usize, flags as usize, mode as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if fd >= SIMFD {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        if let Some(r) = with(|c| c.sys_read(fd, b)) {
            return res(r);
        }
    }
    ret(raw(0, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd >= SIMFD {
        let b = std::slice::from_raw_parts(buf as *const u8, n);
        if let Some(r) = with(|c| c.sys_write(fd, b)) {
            return res(r);
        }
    }
    ret(raw(1, fd as usize, buf as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= SIMFD {
        if let Some(r) = with(|c| c.sys_close(fd)) {
            return res(r) as c_int;
        }
    }
    ret(raw(3, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fd >= SIMFD {
        if let Some(r) = with(|c| c.sys_fsync(fd)) {
            return res(r) as c_int;
        }
    }
    ret(raw(74, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if fd >= SIMFD {
        return fsync(fd);
    }
    ret(raw(75, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if fd >= SIMFD {
        if let Some(r) = with(|c| c.sys_lseek(fd, off, whence)) {
            return res(r.map(|v| v as isize)) as i64;
        }
    }
    ret(raw(8, fd as usize, off as usize, whence as usize, 0, 0, 0)) as i64
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if fd >= SIMFD {
        if let Some(r) = with(|c| c.sys_ftruncate(fd, len as usize)) {
            return res(r) as c_int;
        }
    }
    ret(raw(77, fd as usize, len as usize, 0, 0, 0, 0)) as c_int
}
/// used by std to check file descriptors before closing them
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd >= SIMFD {
        if let Some(r) = with(|c| c.fd(fd).map(|_| 0)) {
            return res(r) as c_int;
        }
    }
    ret(raw(72, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let (Some(x), Some(y)) = (sim_path(a), sim_path(b)) {
        if let Some(r) = with(|c| c.sys_rename(x, y)) {
            return res(r) as c_int;
        }
    }
    ret(raw(82, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if let Some(x) = sim_path(a) {
        if let Some(r) = with(|c| c.sys_unlink(x)) {
            return res(r) as c_int;
        }
    }
    ret(raw(87, a as usize, 0, 0, 0, 0, 0)) as c_int
}

/// `struct stat` of x86_64: st_mode at 24, st_size at 48, 144 bytes in total
unsafe fn fill_stat(buf: *mut u8, size: u64) {
    std::ptr::write_bytes(buf, 0, 144);
    *(buf.add(16) as *mut u64) = 1; // st_nlink
    *(buf.add(24) as *mut u32) = 0o100644; // st_mode
    *(buf.add(48) as *mut u64) = size; // st_size
    *(buf.add(56) as *mut u64) = 4096; // st_blksize
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut u8) -> c_int {
    if fd >= SIMFD {
        if let Some(r) = with(|c| c.sys_size(fd)) {
            return match r {
                Ok(s) => {
                    fill_stat(buf, s);
                    0
                }
                Err(e) => {
                    *__errno_location() = e;
                    -1
                }
            };
        }
    }
    ret(raw(5, fd as usize, buf as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, buf: *mut u8) -> c_int {
    if let Some(s) = sim_path(p) {
        let size = with(|c| {
            let r = c.fault(Call::Stat, None);
            match (r, c.disk.get(s)) {
                (Err(e), _) => Err(e),
                (_, None) => Err(ENOENT),
                (_, Some(d)) => {
                    let n = d.len() as u64;
                    Ok(c.fake_size().unwrap_or(n))
                }
            }
        });
        if let Some(r) = size {
            return match r {
                Ok(s) => {
                    fill_stat(buf, s);
                    0
                }
                Err(e) => {
                    *__errno_location() = e;
                    -1
                }
            };
        }
    }
    ret(raw(4, p as usize, buf as usize, 0, 0, 0, 0)) as c_int
}
/// no statx in the simulated kernel: std falls back to (f)stat64
#[no_mangle]
pub unsafe extern "C" fn statx(_: c_int, _: *const c_char, _: c_int, _: u32, _: *mut c_void) -> c_int {
    *__errno_location() = ENOSYS;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut i64) -> c_int {
    if let Some(t) = with(|c| {
        if clk == 0 || clk == 5 {
            c.clock.read()
        } else {
            // the monotonic clock advances with the number of readings only
            c.clock.reads as i128 * 1_000_000
        }
    }) {
        *ts = (t.div_euclid(1_000_000_000)) as i64;
        *ts.add(1) = (t.rem_euclid(1_000_000_000)) as i64;
        return 0;
    }
    ret(raw(228, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

unsafe fn sim_entropy(buf: *mut c_void, n: usize) -> Option<isize> {
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    let r = with(|c| {
        let short = c.fault(Call::Entropy, None)?;
        let n = short.unwrap_or(b.len()).min(b.len());
        c.entropy.fill(&mut b[..n]);
        Ok(n)
    })?;
    Some(res(r))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: u32) -> isize {
    if let Some(r) = sim_entropy(buf, n) {
        return r;
    }
    ret(raw(318, buf as usize, n, flags as usize, 0, 0, 0))
}

/// Direct system calls: futex waits of simulated threads become scheduling points (a simulated
/// thread must never really block), getrandom is simulated as above.
#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: usize,
    b: usize,
    c: usize,
    d: usize,
    e: usize,
    f: usize,
) -> c_long {
    const FUTEX: c_long = 202;
    if n == FUTEX && crate::sched::on_sim_thread() {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            // FUTEX_WAIT / FUTEX_WAIT_BITSET
            if *(a as *const u32) != c as u32 {
                *__errno_location() = EAGAIN;
                return -1;
            }
            crate::sched::blocked();
            return 0;
        }
    }
    if n == 318 {
        if let Some(r) = sim_entropy(a as *mut c_void, b) {
            return r as c_long;
        }
    }
    ret(raw(n, a, b, c, d, e, f)) as c_long
}

/// arms (other) faults from inside of a simulated process
pub fn arm(f: &[IoFault]) {
    with(|c| c.arm(f));
}

/// the faults stop and the file has its content (again)
pub fn repair(name: &str, bytes: &[u8]) {
    with(|c| {
        c.arm(&[]);
        if let Some(i) = c.disk.names.get(name).copied() {
            c.disk.inodes[i].data = bytes.to_vec();
        } else {
            c.disk.put(name, bytes);
        }
    });
}

/// the readings the simulated clock gave so far
pub fn readings() -> Vec<i128> {
    let mut v = vec![];
    with(|c| {
        v = c.clock.log.clone();
    });
    v
}
