//! The simulated machine: file system with page cache and durable state, clock, faults, crashes.
//!
//! Everything the code under test does to a path below `/sim` ends up here. One `World` is one
//! run; its behaviour is a pure function of the scenario that configured it.
use crate::rng::{derive, Rng};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;

pub const FD_BASE: i32 = 1 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Call {
    Open,
    Read,
    Write,
    Seek,
    Stat,
    Sync,
    Rename,
    Unlink,
    Chmod,
    Trunc,
    Other,
}

/// what faults call the standard output of a process
pub const STDOUT: &str = "<stdout>";

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    /// the call fails with this errno
    Errno(i32),
    /// a transfer moves at most this many bytes
    Short(u32),
    /// every matching transfer is cut to a pseudo-random 1..=max bytes
    Split { seed: u64, max: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub call: Call,
    /// only on this file (final path), or any
    pub file: Option<String>,
    /// only for this actor, or any
    pub actor: Option<u32>,
    /// let this many matching calls through first
    pub skip: u32,
    /// then hit this many calls
    pub count: u32,
    pub kind: FaultKind,
    #[serde(skip)]
    pub seen: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum EventKind {
    /// somebody else shortens the file
    Truncate { file: String, len: u64 },
    /// somebody else appends to the file
    Append { file: String, len: u64 },
    /// the wall clock is set to this many seconds since the epoch
    SetClock { secs: i64 },
}

/// Something the environment does, at a given system call of the run
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Event {
    pub at: u64,
    pub kind: EventKind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum CrashKind {
    /// machine loses power: unsynced state survives partially, chosen by the seed
    Power { seed: u64 },
    /// the process of this actor is killed; the page cache survives
    Kill { actor: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Crash {
    pub at: u64,
    pub kind: CrashKind,
}

#[derive(Clone)]
enum DataOp {
    Write(u64, Vec<u8>),
    Trunc(u64),
}

#[derive(Clone)]
pub struct Inode {
    pub data: Arc<Vec<u8>>,
    durable: Arc<Vec<u8>>,
    log: Vec<DataOp>,
    pub mode: u32,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Node {
    File(usize),
    Dir,
    Link(String),
}

#[derive(Clone)]
enum DirOp {
    Set(String, Node),
    Del(String),
    Rename(String, String),
}

pub struct Fd {
    path: String,
    ino: Option<usize>,
    pos: u64,
    read: bool,
    write: bool,
    append: bool,
    pub actor: u32,
}

#[derive(Default)]
pub struct World {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, Node>,
    dnames: BTreeMap<String, Node>,
    dlog: Vec<DirOp>,
    fds: Vec<Option<usize>>,
    descs: Vec<Fd>,
    /// process ids of the actors start here
    pub pid_base: u32,
    pub faults: Vec<Fault>,
    pub events: Vec<Event>,
    pub crash: Option<Crash>,
    pub crashed: bool,
    pub killed: Option<u32>,
    /// nanoseconds since the epoch shown by the wall clock
    pub clock: i128,
    /// simulated time elapsed (monotonic)
    pub elapsed: u128,
    /// nanoseconds each system call takes
    pub tick: u64,
    pub calls: u64,
    pub max_calls: u64,
    pub runaway: bool,
    pub fired: BTreeMap<String, u64>,
    /// hard (non-benign) faults fired so far
    pub hard: u64,
    /// hard faults fired on the clock of each actor
    pub hard_by_actor: BTreeMap<u32, u64>,
    pub events_fired: u64,
    pub trace_hash: u64,
    pub state_hashes: Vec<u64>,
    pub trace: Option<Vec<String>>,
    pub watch: Vec<String>,
    /// (call, actor, path, content) after every change of a watched path
    pub seen: Vec<(u64, u32, String, Option<Arc<Vec<u8>>>)>,
    /// wall-clock values handed out: (actor, ns)
    pub clock_reads: Vec<(u32, i128)>,
    pub out: BTreeMap<u32, Vec<u8>>,
    pub err: BTreeMap<u32, Vec<u8>>,
    pub rand: Option<Rng>,
    pub per_class: BTreeMap<Call, u64>,
}

pub const EIO: i32 = libc::EIO;

/// Normalise an absolute path
pub fn norm(p: &str) -> String {
    let mut parts: Vec<&str> = Vec::new();
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                parts.pop();
            }
            c => parts.push(c),
        }
    }
    format!("/{}", parts.join("/"))
}

fn parent(p: &str) -> String {
    match p.rfind('/') {
        Some(0) | None => "/".to_string(),
        Some(i) => p[..i].to_string(),
    }
}

fn apply(data: &mut Vec<u8>, op: &DataOp) {
    match op {
        DataOp::Write(off, b) => {
            let off = *off as usize;
            if data.len() < off + b.len() {
                data.resize(off + b.len(), 0);
            }
            data[off..off + b.len()].copy_from_slice(b);
        }
        DataOp::Trunc(n) => data.resize(*n as usize, 0),
    }
}

impl World {
    pub fn new(seed: u64) -> Self {
        let mut w = World {
            tick: 1_000_000,
            pid_base: 4000,
            max_calls: 400_000,
            rand: Some(Rng::new(derive(&[seed, 0x72_61_6e_64]))),
            trace_hash: 0x1234_5678,
            ..Default::default()
        };
        w.names.insert("/sim".into(), Node::Dir);
        w.dnames = w.names.clone();
        w
    }

    // ---- harness side (no faults, no trace) ----

    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        let d = Arc::new(data);
        let ino = self.inodes.len();
        self.inodes.push(Inode { data: d.clone(), durable: d, log: vec![], mode: 0o100644 });
        self.names.insert(path.to_string(), Node::File(ino));
        self.dnames.insert(path.to_string(), Node::File(ino));
    }
    pub fn put_dir(&mut self, path: &str) {
        self.names.insert(path.to_string(), Node::Dir);
        self.dnames.insert(path.to_string(), Node::Dir);
    }
    pub fn put_link(&mut self, path: &str, to: &str) {
        self.names.insert(path.to_string(), Node::Link(to.to_string()));
        self.dnames.insert(path.to_string(), Node::Link(to.to_string()));
    }
    pub fn remove(&mut self, path: &str) {
        self.names.remove(path);
        self.dnames.remove(path);
    }
    /// The file a path finally means
    pub fn resolve(&self, path: &str) -> String {
        self.follow(&norm(path)).unwrap_or_else(|_| norm(path))
    }
    /// Current content of a file, following links
    pub fn get(&self, path: &str) -> Option<Arc<Vec<u8>>> {
        match self.names.get(&self.follow(&norm(path)).ok()?) {
            Some(Node::File(i)) => Some(self.inodes[*i].data.clone()),
            _ => None,
        }
    }
    pub fn mode_of(&self, path: &str) -> Option<u32> {
        match self.names.get(&self.follow(&norm(path)).ok()?) {
            Some(Node::File(i)) => Some(self.inodes[*i].mode),
            _ => None,
        }
    }
    pub fn set_mode(&mut self, path: &str, mode: u32) {
        if let Some(Node::File(i)) = self.names.get(path).cloned() {
            self.inodes[i].mode = 0o100000 | mode;
        }
    }
    /// Paths that exist now
    pub fn list(&self) -> Vec<String> {
        self.names.iter().filter(|(_, n)| !matches!(n, Node::Dir)).map(|(p, _)| p.clone()).collect()
    }
    pub fn open_fds(&self) -> usize {
        self.fds.iter().flatten().count()
    }

    /// Everything a crash can do to unsynced state; afterwards the machine is up again.
    pub fn recover(&mut self, seed: u64) {
        let mut r = Rng::new(derive(&[seed, 0x70_6f_77_65]));
        for ino in &mut self.inodes {
            if ino.log.is_empty() {
                ino.data = ino.durable.clone();
                continue;
            }
            let mut d = (*ino.durable).clone();
            let n = ino.log.len() as u64;
            match r.below(5) {
                0 => {} // nothing of it
                1 => {
                    // a prefix, last one torn
                    let k = r.below(n + 1) as usize;
                    for op in &ino.log[..k] {
                        apply(&mut d, op);
                    }
                    if let Some(DataOp::Write(off, b)) = ino.log.get(k) {
                        let cut = r.below(b.len() as u64 + 1) as usize;
                        apply(&mut d, &DataOp::Write(*off, b[..cut].to_vec()));
                    }
                }
                2 => {
                    // reordered: any subset
                    for op in &ino.log {
                        if r.chance(1, 2) {
                            apply(&mut d, op);
                        }
                    }
                }
                3 => {
                    // the size is there, the data is not
                    for op in &ino.log {
                        match op {
                            DataOp::Write(off, b) => {
                                apply(&mut d, &DataOp::Write(*off, vec![0; b.len()]))
                            }
                            op => apply(&mut d, op),
                        }
                    }
                }
                _ => {
                    for op in &ino.log {
                        apply(&mut d, op);
                    }
                }
            }
            ino.data = Arc::new(d);
            ino.durable = ino.data.clone();
            ino.log.clear();
        }
        let k = r.below(self.dlog.len() as u64 + 1) as usize;
        let mut names = self.dnames.clone();
        for op in &self.dlog[..k] {
            match op {
                DirOp::Set(p, n) => {
                    names.insert(p.clone(), n.clone());
                }
                DirOp::Del(p) => {
                    names.remove(p);
                }
                DirOp::Rename(a, b) => {
                    if let Some(n) = names.remove(a) {
                        names.insert(b.clone(), n);
                    }
                }
            }
        }
        self.names = names.clone();
        self.dnames = names;
        self.dlog.clear();
        self.fds.clear();
        self.descs.clear();
        self.crashed = false;
        self.crash = None;
    }

    /// Enough time passes without a crash: everything reaches the disk.
    pub fn settle(&mut self) {
        for ino in &mut self.inodes {
            ino.durable = ino.data.clone();
            ino.log.clear();
        }
        self.dnames = self.names.clone();
        self.dlog.clear();
        self.fds.clear();
        self.descs.clear();
        // drop the content of files nobody can reach any more
        let live: std::collections::BTreeSet<usize> =
            self.names.values().filter_map(|n| if let Node::File(i) = n { Some(*i) } else { None }).collect();
        let empty = Arc::new(Vec::new());
        for (i, ino) in self.inodes.iter_mut().enumerate() {
            if !live.contains(&i) {
                ino.data = empty.clone();
                ino.durable = empty.clone();
            }
        }
    }
    /// Bytes held by reachable files
    pub fn total_bytes(&self) -> usize {
        self.names
            .values()
            .map(|n| if let Node::File(i) = n { self.inodes[*i].data.len() } else { 0 })
            .sum()
    }
    /// Forget what belongs to the previous step
    pub fn begin_step(&mut self) {
        self.calls = 0;
        self.faults.clear();
        self.events.clear();
        self.crash = None;
        self.crashed = false;
        self.killed = None;
        self.runaway = false;
        self.hard = 0;
        self.hard_by_actor.clear();
        self.events_fired = 0;
        self.clock_reads.clear();
        self.out.clear();
        self.err.clear();
        self.watch.clear();
        self.seen.clear();
    }

    // ---- system calls ----

    fn note(&mut self, actor: u32, call: Call, what: &str, res: i64) {
        *self.per_class.entry(call).or_default() += 1;
        let h = derive(&[
            self.trace_hash,
            actor as u64,
            call as u64,
            crate::rng::hash_str(what),
            res as u64,
        ]);
        self.trace_hash = h;
        if let Some(t) = &mut self.trace {
            if t.len() < 4000 {
                t.push(format!("{:>5} actor{} {:?} {} = {}", self.calls, actor, call, what, res));
            }
        }
    }

    fn watch_point(&mut self, actor: u32) {
        for i in 0..self.watch.len() {
            let p = self.watch[i].clone();
            let now = self.get(&p);
            let last = self.seen.iter().rev().find(|x| x.2 == p).map(|x| x.3.clone());
            let same = match (&last, &now) {
                (Some(Some(a)), Some(b)) => Arc::ptr_eq(a, b),
                (Some(None), None) => true,
                _ => false,
            };
            let cap = if now.as_ref().is_some_and(|d| d.len() > 1 << 20) { 5 } else { 40 };
            if !same && self.seen.iter().filter(|x| x.2 == p).count() < cap {
                self.seen.push((self.calls, actor, p, now));
            }
        }
    }
    pub fn watch_start(&mut self, paths: Vec<String>) {
        self.watch = paths;
        self.seen.clear();
        self.watch_point(u32::MAX);
    }

    fn bump(&mut self, name: &str) {
        *self.fired.entry(name.to_string()).or_default() += 1;
    }

    /// Start of every system call: time passes, the environment acts, faults may hit.
    /// `Err(errno)`: the call fails. `Ok(cap)`: it may move at most `cap` bytes.
    fn enter(&mut self, actor: u32, call: Call, file: &str) -> Result<usize, i32> {
        self.calls += 1;
        if self.calls > self.max_calls {
            self.runaway = true;
            return Err(EIO);
        }
        if self.crashed || self.killed == Some(actor) {
            return Err(EIO);
        }
        self.clock += self.tick as i128;
        self.elapsed += self.tick as u128;
        let n = self.calls;
        let mut i = 0;
        while i < self.events.len() {
            if self.events[i].at == n {
                let e = self.events.remove(i);
                self.event(actor, e.kind);
            } else {
                i += 1;
            }
        }
        if let Some(c) = &self.crash {
            if n >= c.at {
                match c.kind.clone() {
                    CrashKind::Power { .. } => {
                        self.crashed = true;
                        self.bump("crash-power-loss");
                        return Err(EIO);
                    }
                    CrashKind::Kill { actor: a } => {
                        if self.killed.is_none() {
                            self.killed = Some(a);
                            self.bump("crash-process-kill");
                        }
                        if a == actor {
                            return Err(EIO);
                        }
                    }
                }
            }
        }
        let mut cap = usize::MAX;
        for k in 0..self.faults.len() {
            let f = &mut self.faults[k];
            if f.call != call
                || f.actor.is_some_and(|a| a != actor)
                || f.file.as_deref().is_some_and(|p| p != file)
            {
                continue;
            }
            f.seen += 1;
            if f.seen <= f.skip || f.seen > f.skip.saturating_add(f.count) {
                continue;
            }
            match f.kind.clone() {
                FaultKind::Errno(e) => {
                    let name = format!("{}-{}", format!("{:?}", call).to_lowercase(), errname(e));
                    self.bump(&name);
                    if e != libc::EINTR {
                        self.hard += 1;
                        *self.hard_by_actor.entry(actor).or_default() += 1;
                    }
                    return Err(e);
                }
                FaultKind::Short(n) => {
                    cap = cap.min(n.max(1) as usize);
                    let name = format!("{}-short", format!("{:?}", call).to_lowercase());
                    self.bump(&name);
                }
                FaultKind::Split { seed, max } => {
                    let s = derive(&[seed, f.seen as u64]);
                    // pieces grow in the end, or large files would take for ever
                    let max = if f.seen > 8000 { max.max(1 << 18) } else { max.max(1) };
                    cap = cap.min(1 + (s % max as u64) as usize);
                    let name = format!("{}-split", format!("{:?}", call).to_lowercase());
                    self.bump(&name);
                }
            }
        }
        Ok(cap)
    }

    /// Standard output goes to a pipe or a file outside the simulated machine; it fails when a
    /// fault names it, and takes no part in scheduling.
    pub fn out_fault(&mut self, actor: u32, n: usize) -> Result<usize, i32> {
        let mut cap = n;
        for k in 0..self.faults.len() {
            let f = &mut self.faults[k];
            if f.call != Call::Write || f.file.as_deref() != Some(STDOUT) || f.actor.is_some_and(|a| a != actor) {
                continue;
            }
            f.seen += 1;
            if f.seen <= f.skip || f.seen > f.skip.saturating_add(f.count) {
                continue;
            }
            match f.kind {
                FaultKind::Errno(e) => {
                    self.bump(&format!("stdout-{}", errname(e)));
                    if e != libc::EINTR {
                        self.hard += 1;
                        *self.hard_by_actor.entry(actor).or_default() += 1;
                    }
                    return Err(e);
                }
                FaultKind::Short(m) | FaultKind::Split { max: m, .. } => {
                    cap = cap.min(m.max(1) as usize);
                    self.bump("stdout-short");
                }
            }
        }
        Ok(cap)
    }

    fn event(&mut self, actor: u32, e: EventKind) {
        self.events_fired += 1;
        match e {
            EventKind::Truncate { file, len } => {
                if let Some(Node::File(i)) = self.names.get(&file).cloned() {
                    let ino = &mut self.inodes[i];
                    if (len as usize) < ino.data.len() {
                        Arc::make_mut(&mut ino.data).truncate(len as usize);
                        ino.durable = ino.data.clone();
                        ino.log.clear();
                        self.bump("input-truncated-under-reader");
                    }
                }
            }
            EventKind::Append { file, len } => {
                if let Some(Node::File(i)) = self.names.get(&file).cloned() {
                    let ino = &mut self.inodes[i];
                    let n = ino.data.len() + len as usize;
                    Arc::make_mut(&mut ino.data).resize(n, 0x5a);
                    ino.durable = ino.data.clone();
                    ino.log.clear();
                    self.bump("input-grown-under-reader");
                }
            }
            EventKind::SetClock { secs } => {
                self.clock = secs as i128 * 1_000_000_000;
                self.bump("clock-jump");
            }
        }
        self.watch_point(actor);
    }

    fn follow(&self, p: &str) -> Result<String, i32> {
        let mut p = p.to_string();
        for _ in 0..8 {
            match self.names.get(&p) {
                Some(Node::Link(t)) => {
                    p = if t.starts_with('/') { norm(t) } else { norm(&format!("{}/{}", parent(&p), t)) }
                }
                _ => return Ok(p),
            }
        }
        Err(libc::ELOOP)
    }

    pub fn open(&mut self, actor: u32, path: &str, flags: i32, mode: u32) -> Result<i32, i32> {
        let raw = norm(path);
        let p = self.follow(&raw)?;
        let r = self.open_inner(actor, &raw, &p, flags, mode);
        let res = match r {
            Ok(v) => v as i64,
            Err(e) => -(e as i64),
        };
        self.note(actor, Call::Open, &format!("{p} {flags:#o}"), res);
        self.watch_point(actor);
        r
    }
    fn open_inner(&mut self, actor: u32, raw: &str, p: &str, flags: i32, mode: u32) -> Result<i32, i32> {
        self.enter(actor, Call::Open, p)?;
        let acc = flags & libc::O_ACCMODE;
        let (rd, wr) = (acc == libc::O_RDONLY || acc == libc::O_RDWR, acc != libc::O_RDONLY);
        if raw != p && flags & libc::O_NOFOLLOW != 0 {
            return Err(libc::ELOOP);
        }
        let ino = match self.names.get(p).cloned() {
            Some(Node::Dir) => {
                if wr {
                    return Err(libc::EISDIR);
                }
                None
            }
            Some(Node::Link(_)) => return Err(libc::ELOOP),
            Some(Node::File(i)) => {
                if flags & libc::O_DIRECTORY != 0 {
                    return Err(libc::ENOTDIR);
                }
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if flags & libc::O_TRUNC != 0 && wr {
                    let n = &mut self.inodes[i];
                    if !n.data.is_empty() {
                        n.data = Arc::new(Vec::new());
                        n.log.push(DataOp::Trunc(0));
                    }
                }
                Some(i)
            }
            None => {
                if flags & libc::O_CREAT == 0 {
                    return Err(libc::ENOENT);
                }
                match self.names.get(&parent(p)) {
                    Some(Node::Dir) => {}
                    Some(_) => return Err(libc::ENOTDIR),
                    None => return Err(libc::ENOENT),
                }
                let e = Arc::new(Vec::new());
                self.inodes.push(Inode {
                    data: e.clone(),
                    durable: e,
                    log: vec![],
                    mode: 0o100000 | (mode & 0o777 & !0o022),
                });
                let i = self.inodes.len() - 1;
                self.names.insert(p.to_string(), Node::File(i));
                self.dlog.push(DirOp::Set(p.to_string(), Node::File(i)));
                Some(i)
            }
        };
        let fd = Fd {
            path: p.to_string(),
            ino,
            pos: 0,
            read: rd,
            write: wr,
            append: flags & libc::O_APPEND != 0,
            actor,
        };
        let slot = match self.fds.iter().position(|x| x.is_none()) {
            Some(s) => s,
            None => {
                self.fds.push(None);
                self.fds.len() - 1
            }
        };
        self.descs.push(fd);
        self.fds[slot] = Some(self.descs.len() - 1);
        Ok(FD_BASE + slot as i32)
    }
    /// A second descriptor of the same open file (shared position)
    pub fn dup(&mut self, actor: u32, fd: i32) -> Result<i32, i32> {
        let d = self.fds.get((fd - FD_BASE) as usize).copied().flatten().ok_or(libc::EBADF)?;
        let path = self.descs[d].path.clone();
        self.enter(actor, Call::Other, &path)?;
        self.fds.push(Some(d));
        Ok(FD_BASE + self.fds.len() as i32 - 1)
    }

    fn fd(&mut self, fd: i32) -> Result<&mut Fd, i32> {
        let d = self.fds.get((fd - FD_BASE) as usize).copied().flatten().ok_or(libc::EBADF)?;
        Ok(&mut self.descs[d])
    }
    fn fd_path(&mut self, fd: i32) -> String {
        self.fd(fd).map(|f| f.path.clone()).unwrap_or_default()
    }

    pub fn close(&mut self, _actor: u32, fd: i32) -> Result<i32, i32> {
        match self.fds.get_mut((fd - FD_BASE) as usize) {
            Some(x) if x.is_some() => {
                *x = None;
                Ok(0)
            }
            _ => Err(libc::EBADF),
        }
    }

    /// Read at the file position (`at == None`) or at an offset
    pub fn read(&mut self, actor: u32, fd: i32, want: usize, at: Option<u64>) -> Result<Vec<u8>, i32> {
        let path = self.fd_path(fd);
        let r = self.read_inner(actor, fd, want, at, &path);
        let res = match &r {
            Ok(v) => v.len() as i64,
            Err(e) => -(*e as i64),
        };
        self.note(actor, Call::Read, &path, res);
        r
    }
    fn read_inner(&mut self, actor: u32, fd: i32, want: usize, at: Option<u64>, path: &str) -> Result<Vec<u8>, i32> {
        let cap = self.enter(actor, Call::Read, path)?;
        let f = self.fd(fd)?;
        if !f.read {
            return Err(libc::EBADF);
        }
        let ino = f.ino.ok_or(libc::EISDIR)?;
        let pos = at.unwrap_or(f.pos);
        let data = self.inodes[ino].data.clone();
        let start = (pos as usize).min(data.len());
        let n = want.min(cap).min(data.len() - start);
        if at.is_none() {
            self.fd(fd)?.pos = pos + n as u64;
        }
        Ok(data[start..start + n].to_vec())
    }

    pub fn write(&mut self, actor: u32, fd: i32, buf: &[u8], at: Option<u64>) -> Result<usize, i32> {
        let path = self.fd_path(fd);
        let r = self.write_inner(actor, fd, buf, at, &path);
        let res = match &r {
            Ok(v) => *v as i64,
            Err(e) => -(*e as i64),
        };
        self.note(actor, Call::Write, &path, res);
        self.watch_point(actor);
        r
    }
    fn write_inner(&mut self, actor: u32, fd: i32, buf: &[u8], at: Option<u64>, path: &str) -> Result<usize, i32> {
        let cap = self.enter(actor, Call::Write, path)?;
        let f = self.fd(fd)?;
        if !f.write {
            return Err(libc::EBADF);
        }
        let ino = f.ino.ok_or(libc::EBADF)?;
        let (append, fpos) = (f.append, f.pos);
        let n = buf.len().min(cap);
        let node = &mut self.inodes[ino];
        let pos = at.unwrap_or(if append { node.data.len() as u64 } else { fpos });
        let op = DataOp::Write(pos, buf[..n].to_vec());
        apply(Arc::make_mut(&mut node.data), &op);
        node.log.push(op);
        if at.is_none() {
            self.fd(fd)?.pos = pos + n as u64;
        }
        Ok(n)
    }

    pub fn seek(&mut self, actor: u32, fd: i32, off: i64, whence: i32) -> Result<u64, i32> {
        let path = self.fd_path(fd);
        let r = (|| {
            self.enter(actor, Call::Seek, &path)?;
            let (pos, ino) = {
                let f = self.fd(fd)?;
                (f.pos, f.ino.ok_or(libc::EISDIR)?)
            };
            let len = self.inodes[ino].data.len() as i64;
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => pos as i64,
                libc::SEEK_END => len,
                _ => return Err(libc::EINVAL),
            };
            let p = base.checked_add(off).ok_or(libc::EOVERFLOW)?;
            if p < 0 {
                return Err(libc::EINVAL);
            }
            self.fd(fd)?.pos = p as u64;
            Ok(p as u64)
        })();
        let res = match &r {
            Ok(v) => *v as i64,
            Err(e) => -(*e as i64),
        };
        self.note(actor, Call::Seek, &path, res);
        r
    }

    /// (mode, size, inode number)
    pub fn stat(&mut self, actor: u32, path: &str, follow: bool) -> Result<(u32, u64, u64), i32> {
        let p = norm(path);
        let r = (|| {
            self.enter(actor, Call::Stat, &p)?;
            let p = if follow { self.follow(&p)? } else { p.clone() };
            match self.names.get(&p) {
                Some(Node::File(i)) => {
                    Ok((self.inodes[*i].mode, self.inodes[*i].data.len() as u64, *i as u64 + 10))
                }
                Some(Node::Dir) => Ok((libc::S_IFDIR | 0o755, 4096, 2)),
                Some(Node::Link(t)) => Ok((libc::S_IFLNK | 0o777, t.len() as u64, 3)),
                None => {
                    // a component that is a file gives ENOTDIR
                    match self.names.get(&parent(&p)) {
                        Some(Node::File(_)) => Err(libc::ENOTDIR),
                        _ => Err(libc::ENOENT),
                    }
                }
            }
        })();
        let res = match &r {
            Ok(v) => v.1 as i64,
            Err(e) => -(*e as i64),
        };
        self.note(actor, Call::Stat, &p, res);
        r
    }
    pub fn fstat(&mut self, actor: u32, fd: i32) -> Result<(u32, u64, u64), i32> {
        let path = self.fd_path(fd);
        let r = (|| {
            self.enter(actor, Call::Stat, &path)?;
            match self.fd(fd)?.ino {
                Some(i) => Ok((self.inodes[i].mode, self.inodes[i].data.len() as u64, i as u64 + 10)),
                None => Ok((libc::S_IFDIR | 0o755, 4096, 2)),
            }
        })();
        let res = match &r {
            Ok(v) => v.1 as i64,
            Err(e) => -(*e as i64),
        };
        self.note(actor, Call::Stat, &path, res);
        r
    }
    pub fn ftruncate(&mut self, actor: u32, fd: i32, len: u64) -> Result<i32, i32> {
        let path = self.fd_path(fd);
        let r = (|| {
            self.enter(actor, Call::Trunc, &path)?;
            let f = self.fd(fd)?;
            if !f.write {
                return Err(libc::EINVAL);
            }
            let i = f.ino.ok_or(libc::EINVAL)?;
            let n = &mut self.inodes[i];
            let op = DataOp::Trunc(len);
            apply(Arc::make_mut(&mut n.data), &op);
            n.log.push(op);
            Ok(0)
        })();
        self.note(actor, Call::Trunc, &path, r.map_or_else(|e| -(e as i64), |v| v as i64));
        self.watch_point(actor);
        r
    }
    pub fn fsync(&mut self, actor: u32, fd: i32) -> Result<i32, i32> {
        let path = self.fd_path(fd);
        let r = (|| {
            self.enter(actor, Call::Sync, &path)?;
            match self.fd(fd)?.ino {
                Some(i) => {
                    let n = &mut self.inodes[i];
                    n.durable = n.data.clone();
                    n.log.clear();
                }
                None => {
                    self.dnames = self.names.clone();
                    self.dlog.clear();
                }
            }
            Ok(0)
        })();
        self.note(actor, Call::Sync, &path, r.map_or_else(|e| -(e as i64), |v| v as i64));
        r
    }
    pub fn rename(&mut self, actor: u32, a: &str, b: &str) -> Result<i32, i32> {
        let (a, b) = (norm(a), norm(b));
        let r = (|| {
            self.enter(actor, Call::Rename, &b)?;
            let n = self.names.get(&a).cloned().ok_or(libc::ENOENT)?;
            if n == Node::Dir {
                return Err(libc::EINVAL);
            }
            match self.names.get(&parent(&b)) {
                Some(Node::Dir) => {}
                _ => return Err(libc::ENOENT),
            }
            if self.names.get(&b) == Some(&Node::Dir) {
                return Err(libc::EISDIR);
            }
            self.names.remove(&a);
            self.names.insert(b.clone(), n);
            self.dlog.push(DirOp::Rename(a.clone(), b.clone()));
            Ok(0)
        })();
        self.note(actor, Call::Rename, &format!("{a} {b}"), r.map_or_else(|e| -(e as i64), |v| v as i64));
        self.watch_point(actor);
        r
    }
    pub fn unlink(&mut self, actor: u32, p: &str) -> Result<i32, i32> {
        let p = norm(p);
        let r = (|| {
            self.enter(actor, Call::Unlink, &p)?;
            match self.names.get(&p) {
                Some(Node::Dir) => Err(libc::EISDIR),
                None => Err(libc::ENOENT),
                Some(_) => {
                    self.names.remove(&p);
                    self.dlog.push(DirOp::Del(p.clone()));
                    Ok(0)
                }
            }
        })();
        self.note(actor, Call::Unlink, &p, r.map_or_else(|e| -(e as i64), |v| v as i64));
        self.watch_point(actor);
        r
    }
    pub fn link(&mut self, actor: u32, a: &str, b: &str) -> Result<i32, i32> {
        let (a, b) = (norm(a), norm(b));
        let r = (|| {
            self.enter(actor, Call::Rename, &b)?;
            let n = self.names.get(&a).cloned().ok_or(libc::ENOENT)?;
            if self.names.contains_key(&b) {
                return Err(libc::EEXIST);
            }
            self.names.insert(b.clone(), n.clone());
            self.dlog.push(DirOp::Set(b.clone(), n));
            Ok(0)
        })();
        self.note(actor, Call::Rename, &format!("link {a} {b}"), r.map_or_else(|e| -(e as i64), |v| v as i64));
        self.watch_point(actor);
        r
    }
    pub fn mkdir(&mut self, actor: u32, p: &str) -> Result<i32, i32> {
        let p = norm(p);
        self.enter(actor, Call::Other, &p)?;
        if self.names.contains_key(&p) {
            return Err(libc::EEXIST);
        }
        if self.names.get(&parent(&p)) != Some(&Node::Dir) {
            return Err(libc::ENOENT);
        }
        self.names.insert(p.clone(), Node::Dir);
        self.dlog.push(DirOp::Set(p.clone(), Node::Dir));
        self.note(actor, Call::Other, &format!("mkdir {p}"), 0);
        Ok(0)
    }
    pub fn chmod(&mut self, actor: u32, p: &str, mode: u32) -> Result<i32, i32> {
        let p = norm(p);
        let r = (|| {
            self.enter(actor, Call::Chmod, &p)?;
            let p = self.follow(&p)?;
            match self.names.get(&p) {
                Some(Node::File(i)) => {
                    self.inodes[*i].mode = 0o100000 | (mode & 0o7777);
                    Ok(0)
                }
                Some(_) => Ok(0),
                None => Err(libc::ENOENT),
            }
        })();
        self.note(actor, Call::Chmod, &p, r.map_or_else(|e| -(e as i64), |v| v as i64));
        r
    }
    pub fn fchmod(&mut self, actor: u32, fd: i32, mode: u32) -> Result<i32, i32> {
        let path = self.fd_path(fd);
        let r = (|| {
            self.enter(actor, Call::Chmod, &path)?;
            if let Some(i) = self.fd(fd)?.ino {
                self.inodes[i].mode = 0o100000 | (mode & 0o7777);
            }
            Ok(0)
        })();
        self.note(actor, Call::Chmod, &path, r.map_or_else(|e| -(e as i64), |v| v as i64));
        r
    }
    pub fn realpath(&mut self, actor: u32, p: &str) -> Result<String, i32> {
        self.enter(actor, Call::Other, p)?;
        let q = self.follow(&norm(p))?;
        if self.names.contains_key(&q) {
            Ok(q)
        } else {
            Err(libc::ENOENT)
        }
    }
    pub fn readlink(&mut self, actor: u32, p: &str) -> Result<String, i32> {
        self.enter(actor, Call::Other, p)?;
        match self.names.get(&norm(p)) {
            Some(Node::Link(t)) => Ok(t.clone()),
            Some(_) => Err(libc::EINVAL),
            None => Err(libc::ENOENT),
        }
    }
    /// Wall clock read by an actor
    pub fn now(&mut self, actor: u32) -> i128 {
        self.clock += 1_000;
        self.elapsed += 1_000;
        let c = self.clock;
        self.clock_reads.push((actor, c));
        c
    }
}

pub fn errname(e: i32) -> String {
    match e {
        libc::EINTR => "eintr".into(),
        libc::EIO => "eio".into(),
        libc::ENOSPC => "enospc".into(),
        libc::EACCES => "eacces".into(),
        libc::EMFILE => "emfile".into(),
        libc::ENOENT => "enoent".into(),
        libc::EDQUOT => "edquot".into(),
        libc::EROFS => "erofs".into(),
        libc::ENOMEM => "enomem".into(),
        libc::EPERM => "eperm".into(),
        libc::ESTALE => "estale".into(),
        libc::EXDEV => "exdev".into(),
        libc::EPIPE => "epipe".into(),
        libc::EFBIG => "efbig".into(),
        libc::EAGAIN => "eagain".into(),
        libc::ETIMEDOUT => "etimedout".into(),
        libc::EISDIR => "eisdir".into(),
        libc::ENFILE => "enfile".into(),
        libc::EBUSY => "ebusy".into(),
        e => format!("errno{e}"),
    }
}
