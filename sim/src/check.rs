//! The driver: seeded search over scenarios in worker processes, minimisation, replay, evidence.
use crate::exec::{self, Report, Violation};
use crate::gen;
use crate::rng::{derive, Rng};
use crate::scenario::{Op, Scenario};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::fs::FileExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const DUMMY: usize = 72;
/// runs in the same process that a violation may depend on
const PAST: usize = 64;
/// injections per undisturbed history
const INJECT: u64 = 3;

/// (families and weights, histories per worker for the quick tier)
pub fn plan(prop: &str) -> (Vec<(&'static str, u32)>, u64) {
    let f: Vec<(&'static str, u32)> = match prop {
        "C01" => vec![("digest", 12), ("sign", 3), ("damage", 3), ("object", 2), ("multi", 2), ("dump", 1)],
        "C02" => vec![("elf", 10), ("digest", 6), ("dump", 1), ("damage", 2), ("multi", 2), ("process", 1)],
        "C03" => vec![("sign", 10), ("elf", 4), ("limits", 3), ("stamp", 3), ("multi", 3), ("creds", 2), ("object", 2), ("concurrent", 1)],
        "C04" => vec![("sign", 10), ("object", 5), ("multi", 4), ("damage", 3), ("stamp", 2), ("limits", 1), ("concurrent", 1)],
        "C05" => vec![("elf", 12), ("stamp", 3), ("multi", 3), ("limits", 2), ("sign", 2), ("crash", 1)],
        "C06" => vec![("crash", 14), ("sign", 3), ("dump", 3), ("concurrent", 4), ("creds", 1), ("multi", 2)],
        "C07" => vec![("damage", 10), ("process", 6), ("sign", 3), ("digest", 3), ("dump", 2), ("multi", 2), ("object", 1), ("creds", 1)],
        "C08" => vec![("damage", 14), ("multi", 3), ("process", 1), ("digest", 1), ("elf", 1), ("object", 1), ("creds", 1), ("limits", 1), ("stamp", 1), ("concurrent", 1)],
        "C09" => vec![("forge", 12), ("verify", 4), ("multi", 2), ("damage", 2)],
        "C10" => vec![("verify", 12), ("multi", 2), ("process", 1)],
        "C11" => vec![("stamp", 12), ("sign", 3), ("multi", 2), ("limits", 1)],
        "C12" => vec![("limits", 10), ("damage", 5), ("sign", 3), ("stamp", 3), ("multi", 2), ("elf", 2), ("object", 1)],
        "C13" => vec![("dump", 12), ("crash", 2), ("multi", 2), ("concurrent", 1), ("process", 1), ("damage", 1)],
        "C14" => vec![("object", 12), ("damage", 2), ("multi", 2)],
        "C15" => vec![("concurrent", 12)],
        "C18" => vec![("info", 12), ("multi", 1), ("process", 1)],
        "C16" => vec![("creds", 12), ("sign", 2), ("concurrent", 1), ("process", 1)],
        _ => gen::FAMILIES.iter().map(|f| (*f, 1)).collect(),
    };
    let n = match prop {
        "C01" | "C02" => 500,
        "C16" => 900,
        _ => 700,
    };
    (f, n)
}

#[derive(Serialize, Deserialize, Default)]
pub struct Stats {
    pub runs: u64,
    pub histories: u64,
    pub calls: u64,
    pub elapsed_ns: u64,
    pub switches: u64,
    pub actors: u64,
    pub judged: u64,
    pub fired: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub families: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub traces: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub timed_out: bool,
}
impl Stats {
    fn add(&mut self, sc: &Scenario, r: &Report, prop: &str) {
        self.runs += 1;
        self.calls += r.calls;
        self.elapsed_ns += r.elapsed_ns;
        self.switches += r.switches;
        self.actors += r.actors;
        self.judged += r.judged.get(prop).copied().unwrap_or(0);
        for (k, v) in &r.fired {
            *self.fired.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &r.outcomes {
            *self.outcomes.entry(k.clone()).or_default() += v;
        }
        *self.families.entry(sc.family.clone()).or_default() += 1;
        self.states.extend(r.states.iter());
        if r.judged.get(prop).copied().unwrap_or(0) > 0 {
            self.traces.insert(r.trace_hash);
        }
    }
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.histories += o.histories;
        self.calls += o.calls;
        self.elapsed_ns += o.elapsed_ns;
        self.switches += o.switches;
        self.actors += o.actors;
        self.judged += o.judged;
        for (k, v) in o.fired {
            *self.fired.entry(k).or_default() += v;
        }
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        for (k, v) in o.families {
            *self.families.entry(k).or_default() += v;
        }
        self.states.extend(o.states);
        self.traces.extend(o.traces);
        self.timed_out |= o.timed_out;
        if self.samples.len() < 4 {
            self.samples.extend(o.samples);
        }
    }
}

fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == name).and_then(|i| v.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|x| x.parse().ok()).unwrap_or(d)
}

fn pick_family(prop: &str, seed: u64) -> &'static str {
    let (f, _) = plan(prop);
    let mut r = Rng::new(derive(&[seed, 0x66_61_6d]));
    let w: Vec<u32> = f.iter().map(|x| x.1).collect();
    f[r.weighted(&w)].0
}

fn history_seed(seed: u64, idx: u64) -> u64 {
    derive(&[seed, idx, 0x6b_73_75]) >> 12
}

/// Scenario number `phase` of a history: 0 is undisturbed
fn scenario(prop: &str, fam: Option<&str>, seed: u64, phase: u64) -> Scenario {
    let fam = fam.unwrap_or_else(|| pick_family(prop, seed));
    let sc = gen::base(fam, seed);
    if phase == 0 {
        return sc;
    }
    let rep = exec::run(&sc, false);
    gen::inject(&sc, &rep, derive(&[seed, phase]))
}

fn describe(sc: &Scenario) -> String {
    let ops: Vec<String> = sc
        .steps
        .iter()
        .map(|s| {
            let n: Vec<&str> = s.ops.iter().map(Op::name).collect();
            let mut t = n.join("|");
            if !s.faults.is_empty() {
                t.push_str(&format!("{{{}}}", s.faults.iter().map(|f| format!("{:?}:{:?}@{}", f.call, f.kind, f.skip)).collect::<Vec<_>>().join(",")));
            }
            for e in &s.events {
                t.push_str(&format!("<{:?}@{}>", e.kind, e.at));
            }
            if let Some(c) = &s.crash {
                t.push_str(&format!("!{:?}@{}", c.kind, c.at));
            }
            if !s.preempt.is_empty() {
                t.push_str(&format!("~{:?}", s.preempt));
            }
            t
        })
        .collect();
    format!("{} seed {}: {}", sc.family, sc.seed, ops.join(" ; "))
}

// ---------------------------------------------------------------- worker

pub fn worker() -> i32 {
    let prop = arg("--prop").unwrap_or_default();
    let seed = num("--seed", 1);
    let start = num("--start", 0);
    let stride = num("--stride", 1).max(1);
    let count = num("--count", 1);
    let deadline = Instant::now() + Duration::from_secs(num("--deadline", 600));
    let fam = arg("--family");
    let progress = arg("--progress").and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok());
    let hashes = arg("--hashes").is_some();
    let note = |idx: u64, phase: u64| {
        if let Some(f) = &progress {
            let mut b = idx.to_le_bytes().to_vec();
            b.extend(phase.to_le_bytes());
            let _ = f.write_at(&b, 0);
        }
    };
    let mut st = Stats::default();
    let out = std::io::stdout();
    let emit = |line: String| {
        let mut o = out.lock();
        let _ = writeln!(o, "{line}");
        let _ = o.flush();
    };
    let mut n = 0;
    let mut idx = start;
    // the runs before, in case something in the process remembers them
    let mut past: VecDeque<Scenario> = VecDeque::new();
    while n < count {
        if Instant::now() > deadline {
            st.timed_out = true;
            break;
        }
        let hs = history_seed(seed, idx);
        let f = fam.as_deref().unwrap_or_else(|| pick_family(&prop, hs));
        note(idx, 0);
        let sc = gen::base(f, hs);
        let rep = exec::run(&sc, false);
        st.add(&sc, &rep, &prop);
        st.histories += 1;
        if hashes {
            emit(format!("H {idx} 0 {:x} {}", rep.trace_hash, rep.violations.len()));
        }
        let mut found = hit(&sc, &rep, &prop);
        if found.is_none() {
            past.push_back(sc.clone());
        }
        for phase in 1..=INJECT {
            if found.is_some() {
                break;
            }
            note(idx, phase);
            let s2 = gen::inject(&sc, &rep, derive(&[hs, phase]));
            if s2 == sc {
                continue;
            }
            let r2 = exec::run(&s2, false);
            st.add(&s2, &r2, &prop);
            if hashes {
                emit(format!("H {idx} {phase} {:x} {}", r2.trace_hash, r2.violations.len()));
            }
            if st.samples.len() < 2 && r2.judged.contains_key(&prop) && !r2.fired.is_empty() {
                st.samples.push(describe(&s2));
            }
            found = hit(&s2, &r2, &prop);
            if found.is_none() {
                past.push_back(s2);
            }
        }
        while past.len() > PAST {
            past.pop_front();
        }
        if let Some((sc, v)) = found {
            emit(format!("V {}", json!({"scenario": sc, "violation": v, "index": idx, "past": past})));
            if arg("--all").is_none() {
                break;
            }
        }
        n += 1;
        idx += stride;
    }
    emit(format!("S {}", serde_json::to_string(&st).unwrap_or_default()));
    0
}

fn hit(sc: &Scenario, rep: &Report, prop: &str) -> Option<(Scenario, Violation)> {
    let v = rep.violations.iter().find(|v| prop == "ALL" || v.props.iter().any(|p| p == prop))?;
    Some((sc.clone(), v.clone()))
}

// ---------------------------------------------------------------- one scenario in a process of its own

fn self_cmd(args: &[&str]) -> Command {
    let me = std::env::current_exe().unwrap_or_else(|_| "ksusim".into());
    let mut c = Command::new(me);
    c.args(args);
    // room for the arguments of simulated processes
    c.args(std::iter::repeat_n("-", DUMMY));
    c
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct One {
    violation: Option<Violation>,
    trace_hash: u64,
    exit: i32,
    #[serde(default)]
    trace: Vec<String>,
}

fn wait_child(mut c: Child, limit: Duration) -> (i32, Vec<u8>) {
    let mut so = c.stdout.take();
    let t = std::thread::spawn(move || {
        let mut v = vec![];
        if let Some(s) = so.as_mut() {
            let _ = std::io::Read::read_to_end(s, &mut v);
        }
        v
    });
    let end = Instant::now() + limit;
    let code = loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                use std::os::unix::process::ExitStatusExt;
                break s.code().unwrap_or_else(|| 128 + s.signal().unwrap_or(0));
            }
            Ok(None) => {
                if Instant::now() > end {
                    let _ = c.kill();
                    let _ = c.wait();
                    break crate::sys::EXIT_HANG;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            Err(_) => break 99,
        }
    };
    (code, t.join().unwrap_or_default())
}

/// Processor seconds that one simulated run may take: ordinary ones take a few milliseconds
const CPU_LIMIT: u64 = 20;

/// Processor time a process has used so far, in seconds
fn cpu_of(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let v: Vec<u64> = s.rsplit(')').next().unwrap_or("").split_whitespace().map(|x| x.parse().unwrap_or(0)).collect();
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) }.max(1) as f64;
    (v.get(11).copied().unwrap_or(0) + v.get(12).copied().unwrap_or(0)) as f64 / hz
}

/// Run a scenario in a child, after those in `past`; violations of `prop` only
fn run_one(past: &[Scenario], sc: &Scenario, prop: &str, trace: bool) -> One {
    run_one_cpu(past, sc, prop, trace, CPU_LIMIT)
}
fn run_one_cpu(past: &[Scenario], sc: &Scenario, prop: &str, trace: bool, cpu: u64) -> One {
    let tmp = scratch().join(format!("one-{}.json", std::process::id()));
    if std::fs::write(&tmp, serde_json::to_vec(&past.iter().chain([sc]).collect::<Vec<_>>()).unwrap_or_default()).is_err() {
        return One::default();
    }
    let p = tmp.to_string_lossy().to_string();
    let mut a = vec!["one", &p, "--prop", prop];
    if trace {
        a.push("--trace");
        a.push("1");
    }
    let cpu = cpu + past.len() as u64;
    let mut cmd = self_cmd(&a);
    unsafe {
        use std::os::unix::process::CommandExt;
        cmd.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let child = cmd.stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
    let Ok(c) = child else { return One::default() };
    let (code, out) = wait_child(c, Duration::from_secs(120 + cpu));
    let code = if code == 128 + libc::SIGXCPU { crate::sys::EXIT_HANG } else { code };
    let _ = std::fs::remove_file(&tmp);
    if code == 0 {
        serde_json::from_slice(&out).unwrap_or_default()
    } else {
        let why = match code {
            crate::alloc::EXIT_MEM => "memory use far beyond the size of its files".to_string(),
            crate::sys::EXIT_HANG => "does not come to an end".to_string(),
            c => format!("the process dies (status {c})"),
        };
        let v = Violation { props: vec!["C08".into()], step: 0, actor: -1, op: "?".into(), what: why };
        One { violation: if prop == "C08" || prop == "ALL" { Some(v) } else { None }, exit: code, ..Default::default() }
    }
}

pub fn one() -> i32 {
    let f = std::env::args().nth(2).unwrap_or_default();
    let prop = arg("--prop").unwrap_or_else(|| "ALL".into());
    let Some(all) = std::fs::read(f).ok().and_then(|b| serde_json::from_slice::<Vec<Scenario>>(&b).ok()) else { return 98 };
    let Some((sc, past)) = all.split_last() else { return 98 };
    for p in past {
        exec::run(p, false);
    }
    let sc = sc.clone();
    let rep = exec::run(&sc, arg("--trace").is_some());
    let o = One {
        violation: hit(&sc, &rep, &prop).map(|x| x.1),
        trace_hash: rep.trace_hash,
        exit: 0,
        trace: rep.trace,
    };
    println!("{}", serde_json::to_string(&o).unwrap_or_default());
    0
}

fn scratch() -> std::path::PathBuf {
    let p = std::env::temp_dir().join(format!("ksusim-{}", unsafe { libc::getpid() }));
    let _ = std::fs::create_dir_all(&p);
    p
}

// ---------------------------------------------------------------- minimisation

fn smaller(sc: &Scenario) -> Vec<Scenario> {
    let mut v = vec![];
    let n = sc.steps.len();
    for i in (0..n).rev() {
        if n > 1 {
            let mut s = sc.clone();
            s.steps.remove(i);
            v.push(s);
        }
    }
    for i in 0..n {
        let st = &sc.steps[i];
        if st.crash.is_some() {
            let mut s = sc.clone();
            s.steps[i].crash = None;
            v.push(s);
        }
        for k in 0..st.faults.len() {
            let mut s = sc.clone();
            s.steps[i].faults.remove(k);
            v.push(s);
        }
        for k in 0..st.events.len() {
            let mut s = sc.clone();
            s.steps[i].events.remove(k);
            v.push(s);
        }
        for k in 0..st.preempt.len() {
            let mut s = sc.clone();
            s.steps[i].preempt.remove(k);
            v.push(s);
        }
        if st.ops.len() > 1 {
            for k in 0..st.ops.len() {
                let mut s = sc.clone();
                s.steps[i].ops.remove(k);
                s.steps[i].preempt.clear();
                s.steps[i].first = 0;
                v.push(s);
            }
        }
        for k in 0..st.ops.len() {
            match &st.ops[k] {
                Op::Sign { stamp: Some(_), .. } | Op::LibSign { stamp: Some(_), v2: Some(_), .. } => {
                    let mut s = sc.clone();
                    if let Op::Sign { stamp, .. } | Op::LibSign { stamp, .. } = &mut s.steps[i].ops[k] {
                        *stamp = None;
                    }
                    v.push(s);
                }
                Op::Object { script, .. } if script.len() > 1 => {
                    for j in 0..script.len() {
                        let mut s = sc.clone();
                        if let Op::Object { script, .. } = &mut s.steps[i].ops[k] {
                            script.remove(j);
                        }
                        v.push(s);
                    }
                }
                Op::Damage { damage, .. } if damage.len() > 1 => {
                    for j in 0..damage.len() {
                        let mut s = sc.clone();
                        if let Op::Damage { damage, .. } = &mut s.steps[i].ops[k] {
                            damage.remove(j);
                        }
                        v.push(s);
                    }
                }
                _ => {}
            }
        }
    }
    use crate::content::FileSpec;
    for (p, f) in &sc.files {
        let used = serde_json::to_string(&sc.steps).unwrap_or_default().contains(p.as_str());
        if !used || p.starts_with("/sim/out") {
            let mut s = sc.clone();
            s.files.remove(p);
            v.push(s);
        }
        let mut put = |g: FileSpec| {
            let mut s = sc.clone();
            s.files.insert(p.clone(), g);
            v.push(s);
        };
        match f {
            FileSpec::Zip(z) => {
                for (c, d, m, t) in [(0, 0, 0, 0), (z.content / 2, z.cd, z.comment, z.trailing), (z.content, 0, z.comment, z.trailing), (z.content, z.cd, 0, z.trailing), (z.content, z.cd, z.comment, 0), (z.content, z.cd, z.comment / 2, z.trailing)] {
                    let mut y = z.clone();
                    (y.content, y.cd, y.comment, y.trailing) = (c, d, m, t);
                    if &y != z {
                        put(FileSpec::Zip(y));
                    }
                }
                if z.entries > 1 {
                    put(FileSpec::Zip(crate::content::ZipSpec { entries: 1, ..z.clone() }));
                }
                if z.disks != (0, 0) {
                    put(FileSpec::Zip(crate::content::ZipSpec { disks: (0, 0), ..z.clone() }));
                }
                for k in 0..z.decoys.len() {
                    let mut y = z.clone();
                    y.decoys.remove(k);
                    put(FileSpec::Zip(y));
                }
            }
            FileSpec::Elf(e) => {
                if e.many > 0 || e.gap > 0 {
                    put(FileSpec::Elf(crate::content::ElfSpec { many: 0, ..e.clone() }));
                    put(FileSpec::Elf(crate::content::ElfSpec { gap: 0, ..e.clone() }));
                    put(FileSpec::Elf(crate::content::ElfSpec { many: e.many / 2, ..e.clone() }));
                }
                for k in 0..e.secs.len() {
                    let mut y = e.clone();
                    y.secs.remove(k);
                    put(FileSpec::Elf(y));
                    if e.secs[k].size > 8 {
                        let mut y = e.clone();
                        y.secs[k].size /= 2;
                        put(FileSpec::Elf(y));
                    }
                }
                let mut y = e.clone();
                (y.shuffle, y.table_first, y.phdrs, y.trailing, y.strtab_at, y.rich) = (false, false, 0, 0, 99, false);
                if &y != e {
                    put(FileSpec::Elf(y));
                }
            }
            _ => {}
        }
    }
    for i in 0..sc.creds.len() {
        let c = &sc.creds[i];
        let mut y = c.clone();
        (y.leaf_pad, y.pem_noise, y.crlf) = (0, false, false);
        y.chain.clear();
        y.omit_root = false;
        y.order = 0;
        if &y != c {
            let mut s = sc.clone();
            s.creds[i] = y;
            v.push(s);
        }
        if c.flaw.is_some() {
            let mut s = sc.clone();
            s.creds[i].flaw = None;
            v.push(s);
        }
        if c.fmt != crate::creds::KeyFmt::Pkcs8 {
            let mut s = sc.clone();
            s.creds[i].fmt = crate::creds::KeyFmt::Pkcs8;
            s.creds[i].password.clear();
            v.push(s);
        }
    }
    v
}

fn shape(w: &str) -> String {
    w.chars().filter(|c| c.is_alphabetic() || *c == ' ').take(60).collect()
}

/// The runs before that a violation needs: none if it shows by itself
fn needed_past(past: &[Scenario], sc: &Scenario, prop: &str) -> Option<(Vec<Scenario>, One)> {
    let o = run_one(&[], sc, prop, false);
    if o.violation.is_some() {
        return Some((vec![], o));
    }
    let mut n = 1;
    loop {
        let n1 = n.min(past.len());
        if n1 == 0 {
            return None;
        }
        let mut cur = past[past.len() - n1..].to_vec();
        let mut o = run_one(&cur, sc, prop, false);
        if o.violation.is_some() {
            let end = Instant::now() + Duration::from_secs(40);
            let mut i = 0;
            while i < cur.len() && Instant::now() < end {
                let mut less = cur.clone();
                less.remove(i);
                let o2 = run_one(&less, sc, prop, false);
                if o2.violation.is_some() {
                    cur = less;
                    o = o2;
                } else {
                    i += 1;
                }
            }
            return Some((cur, o));
        }
        if n1 == past.len() {
            return None;
        }
        n *= 2;
    }
}

fn minimise(past: &[Scenario], sc: Scenario, prop: &str, first: &One, budget: Duration) -> (Scenario, u64) {
    let end = Instant::now() + budget;
    let want = first.violation.as_ref().map(|v| shape(&v.what)).unwrap_or_default();
    let mut cur = sc;
    let mut tried = 0;
    'again: loop {
        for c in smaller(&cur) {
            if Instant::now() > end {
                break 'again;
            }
            tried += 1;
            let o = run_one_cpu(past, &c, prop, false, if first.exit == crate::sys::EXIT_HANG { 4 } else { CPU_LIMIT });
            if o.violation.as_ref().is_some_and(|v| shape(&v.what) == want) && o.exit == first.exit {
                cur = c;
                continue 'again;
            }
        }
        break;
    }
    (cur, tried)
}

// ---------------------------------------------------------------- parent

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    found_at: String,
    violation: Violation,
    exit: i32,
    trace_hash: u64,
    minimised_with: u64,
    /// runs before in the same process, if the violation depends on them
    #[serde(default)]
    past: Vec<Scenario>,
    scenario: Scenario,
    trace: Vec<String>,
}

struct W {
    child: Child,
    start: u64,
    left: u64,
    progress: std::path::PathBuf,
    rx: std::sync::mpsc::Receiver<String>,
    last: (u64, u64),
    last_change: Instant,
    last_cpu: f64,
    /// its statistics have arrived: it came to its end
    done: bool,
}

fn spawn(prop: &str, seed: u64, start: u64, stride: u64, count: u64, deadline: u64, progress: &std::path::Path) -> std::io::Result<(Child, std::sync::mpsc::Receiver<String>)> {
    std::fs::write(progress, [0xffu8; 16])?;
    let (a, b, c, d, e) = (seed.to_string(), start.to_string(), stride.to_string(), count.to_string(), deadline.to_string());
    let p = progress.to_string_lossy().to_string();
    let mut args = vec!["worker", "--prop", prop, "--seed", &a, "--start", &b, "--stride", &c, "--count", &d, "--deadline", &e, "--progress", &p];
    let fam = arg("--family");
    if let Some(f) = &fam {
        args.extend(["--family", f]);
    }
    let mut child = self_cmd(&args).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
    let (tx, rx) = std::sync::mpsc::channel();
    if let Some(o) = child.stdout.take() {
        std::thread::spawn(move || {
            for l in BufReader::new(o).lines().map_while(Result::ok) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
    }
    Ok((child, rx))
}

pub fn check() -> i32 {
    let prop = arg("--prop").unwrap_or_default();
    let tier = arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed = arg("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = tier == "thorough";
    let (fams, quick_n) = plan(&prop);
    let workers = num("--workers", 8);
    let count = num("--count", if thorough { quick_n * 40 } else { quick_n });
    let deadline = num("--deadline", if thorough { 3000 } else { 420 });
    let began = Instant::now();
    let dir = scratch();
    let mut ws: Vec<W> = vec![];
    for i in 0..workers {
        let progress = dir.join(format!("p{i}"));
        match spawn(&prop, seed, i, workers, count, deadline, &progress) {
            Ok((child, rx)) => ws.push(W { child, start: i, left: count, progress, rx, last: (u64::MAX, 0), last_change: Instant::now(), last_cpu: 0.0, done: false }),
            Err(e) => {
                eprintln!("cannot start a worker: {e}");
                return 2;
            }
        }
    }
    let mut st = Stats::default();
    let mut found: Vec<(Scenario, String, Vec<Scenario>, One)> = vec![];
    let mut unconfirmed = 0;
    let confirm = |sc: Scenario, past: Vec<Scenario>, at: String| match needed_past(&past, &sc, &prop) {
        Some((past, o)) => Some((sc, at, past, o)),
        None => {
            eprintln!("not confirmed on a second run: {} {}", at, describe(&sc));
            None
        }
    };
    let mut deaths = 0u64;
    while !ws.is_empty() {
        let mut i = 0;
        while i < ws.len() {
            let mut eof = false;
            let mut done_stats = ws[i].done;
            let mut again = None;
            loop {
                match ws[i].rx.try_recv() {
                    Ok(l) => {
                        if let Some(j) = l.strip_prefix("S ") {
                            if let Ok(s) = serde_json::from_str::<Stats>(j) {
                                st.merge(s);
                                done_stats = true;
                                if again.is_some() {
                                    break;
                                }
                            }
                        } else if let Some(j) = l.strip_prefix("V ") {
                            if let Ok(v) = serde_json::from_str::<serde_json::Value>(j) {
                                let past = serde_json::from_value::<Vec<Scenario>>(v["past"].clone()).unwrap_or_default();
                                if let Ok(sc) = serde_json::from_value::<Scenario>(v["scenario"].clone()) {
                                    match confirm(sc, past, format!("index {}", v["index"])) {
                                        Some(f) => found.push(f),
                                        None => {
                                            unconfirmed += 1;
                                            again = v["index"].as_u64();
                                        }
                                    }
                                }
                            }
                        }
                    }
                    Err(std::sync::mpsc::TryRecvError::Empty) => break,
                    Err(std::sync::mpsc::TryRecvError::Disconnected) => {
                        eof = true;
                        break;
                    }
                }
            }
            ws[i].done = done_stats;
            if !found.is_empty() {
                break;
            }
            if let Some(idx) = again {
                // nothing to blame the code for: the worker goes on after it
                let _ = ws[i].child.wait();
                while !done_stats {
                    let Ok(l) = ws[i].rx.recv_timeout(Duration::from_secs(1)) else { break };
                    if let Some(s) = l.strip_prefix("S ").and_then(|j| serde_json::from_str::<Stats>(j).ok()) {
                        st.merge(s);
                        done_stats = true;
                    }
                }
                let left = ws[i].left.saturating_sub((idx - ws[i].start) / workers + 1);
                let spent = began.elapsed().as_secs();
                let next = idx + workers;
                let progress = ws[i].progress.clone();
                if left > 0 && unconfirmed < 20 && spent < deadline {
                    if let Ok((child, rx)) = spawn(&prop, seed, next, workers, left, deadline - spent, &progress) {
                        ws[i] = W { child, start: next, left, progress, rx, last: (u64::MAX, 0), last_change: Instant::now(), last_cpu: 0.0, done: false };
                        continue;
                    }
                }
                ws.remove(i);
                continue;
            }
            let pr = std::fs::read(&ws[i].progress).unwrap_or_default();
            let pos = if pr.len() >= 16 {
                (u64::from_le_bytes(pr[..8].try_into().unwrap_or_default()), u64::from_le_bytes(pr[8..16].try_into().unwrap_or_default()))
            } else {
                (u64::MAX, 0)
            };
            if pos != ws[i].last {
                ws[i].last = pos;
                ws[i].last_change = Instant::now();
                ws[i].last_cpu = -1.0;
            }
            let waited = ws[i].last_change.elapsed();
            let mut stuck = waited > Duration::from_secs(180);
            if waited > Duration::from_secs(5) {
                let cpu = cpu_of(ws[i].child.id());
                if ws[i].last_cpu < 0.0 {
                    ws[i].last_cpu = cpu;
                }
                stuck |= cpu - ws[i].last_cpu > 12.0;
            }
            if stuck {
                let _ = ws[i].child.kill();
            }
            if eof || stuck {
                let _ = ws[i].child.wait();
                if !done_stats && pos.0 != u64::MAX {
                    // died on this scenario
                    deaths += 1;
                    let w = &ws[i];
                    let did = (pos.0 - w.start) / workers + 1;
                    if prop == "C08" || prop == "ALL" {
                        let (h, p) = (history_seed(seed, pos.0).to_string(), pos.1.to_string());
                        let o = self_cmd(&["gen", "--prop", &prop, "--hseed", &h, "--phase", &p]).stdout(Stdio::piped()).stderr(Stdio::null()).output();
                        if let Some(sc) = o.ok().and_then(|o| serde_json::from_slice::<Scenario>(&o.stdout).ok()) {
                            match confirm(sc, vec![], format!("index {} phase {}", pos.0, pos.1)) {
                                Some(f) => found.push(f),
                                None => unconfirmed += 1,
                            }
                        }
                    }
                    let left = w.left.saturating_sub(did);
                    let next = pos.0 + workers;
                    let spent = began.elapsed().as_secs();
                    if left > 0 && deaths < 60 && spent < deadline && found.is_empty() {
                        let progress = w.progress.clone();
                        if let Ok((child, rx)) = spawn(&prop, seed, next, workers, left, deadline - spent, &progress) {
                            ws[i] = W { child, start: next, left, progress, rx, last: (u64::MAX, 0), last_change: Instant::now(), last_cpu: 0.0, done: false };
                            continue;
                        }
                    }
                }
                ws.remove(i);
                continue;
            }
            i += 1;
        }
        if !found.is_empty() {
            for w in &mut ws {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let search_s = began.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    if let Some((sc, at, past, o)) = found.into_iter().next() {
        nviol += 1;
        let (min, tried) = minimise(&past, sc.clone(), &prop, &o, Duration::from_secs(if o.exit == crate::sys::EXIT_HANG { 50 } else { 45 }));
        let fin = run_one(&past, &min, &prop, true);
        let fin = if fin.violation.is_some() { fin } else { o };
        let v = fin.violation.clone().unwrap_or(Violation { props: vec![], step: 0, actor: 0, op: String::new(), what: String::new() });
        let path = format!("/verif/out/replay-{prop}-{}.json", sc.seed);
        let _ = std::fs::create_dir_all("/verif/out");
        let r = Replay {
            property: prop.clone(),
            seed,
            found_at: at.clone(),
            violation: v.clone(),
            exit: fin.exit,
            trace_hash: fin.trace_hash,
            minimised_with: tried,
            past,
            scenario: min.clone(),
            trace: fin.trace.clone(),
        };
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap_or_default());
        println!("{prop}: {} (step {}, {}): {}", describe(&min), v.step, v.op, v.what);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    // determinism: the first histories once more, in another process
    let mut det = (0u64, 0u64);
    if code == 0 {
        let a = hashes(&prop, seed, 25);
        let b = hashes(&prop, seed, 25);
        det = (a.len() as u64, a.iter().zip(&b).filter(|(x, y)| x != y).count() as u64 + (a.len() as i64 - b.len() as i64).unsigned_abs());
        if det.1 > 0 {
            eprintln!("determinism self-test: {} of {} runs differ", det.1, det.0);
        }
    }
    let wall = began.elapsed().as_secs_f64();
    let per_hour = (st.runs as f64 / search_s.max(0.001) * 3600.0) as u64;
    let features = if cfg!(feature = "verify") { "with verification" } else { "without verification (as the official offline build)" };
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.traces.len(),
            "rule": "one evaluation is one simulated run of a generated history; it counts as distinct and non-trivial if this property was judged in it at least once and the hash of its complete sequence of simulated system calls (actor, call, file, result) differs from every other such run",
            "samples": st.samples.iter().take(4).collect::<Vec<_>>(),
            "histories": st.histories,
            "judgements_of_this_property": st.judged,
            "runs_per_hour": per_hour,
            "seeds_per_hour": (st.histories as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": st.elapsed_ns as f64 / 1e9,
            "simulated_system_calls": st.calls,
            "faults_injected": st.fired,
            "preemptive_switches": st.switches,
            "actors_run": st.actors,
            "distinct_states": st.states.len(),
            "distinct_states_measure": "(operation, class of its input, fault kinds armed, crash point, number of actors, outcome)",
            "outcomes": st.outcomes,
            "families": st.families,
            "family_weights": fams.iter().map(|f| json!([f.0, f.1])).collect::<Vec<_>>(),
            "worker_deaths": deaths,
            "unconfirmed": unconfirmed,
            "stopped_by_deadline": st.timed_out,
            "determinism_runs_compared": det.0,
            "determinism_mismatches": det.1,
            "real_code": format!("the whole crate and the command line program ({features}), the Rust standard library, ECDSA, SHA-2, PEM/PKCS#8/PKCS#12 and ELF parsing crates"),
            "stubs": if cfg!(feature = "verify") { "operating system calls (files, directories, clock, randomness, process id, scheduling of actors); in place of the KernelSU fork of rustls-webpki (a git dependency that is not available offline) upstream rustls-webpki behind a small adapter" } else { "operating system calls (files, directories, clock, randomness, process id, scheduling of actors)" },
        },
        "assumptions": [
            "the simulated file system: writes reach the page cache at once, unsynced data survives a power loss partially and in any order per file, directory operations survive as a prefix",
            "actors are preempted at system calls only",
            "sampled: seeded search, not exhaustive",
        ],
        "wall_s": wall,
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    let _ = std::fs::write(format!("/verif/evidence/{prop}.json"), serde_json::to_vec_pretty(&ev).unwrap_or_default());
    let _ = std::fs::remove_dir_all(&dir);
    if code == 0 {
        println!(
            "{prop}: held in {} runs ({} distinct, {} judgements, {} faults, {:.0} simulated s) in {:.1} s",
            st.runs,
            st.traces.len(),
            st.judged,
            st.fired.values().sum::<u64>(),
            st.elapsed_ns as f64 / 1e9,
            wall
        );
        if st.runs == 0 || st.judged == 0 {
            eprintln!("nothing was judged");
            return 2;
        }
    }
    code
}

fn hashes(prop: &str, seed: u64, n: u64) -> Vec<String> {
    let (a, b) = (seed.to_string(), n.to_string());
    let o = self_cmd(&["worker", "--prop", prop, "--seed", &a, "--count", &b, "--hashes", "1", "--deadline", "60"]).stdout(Stdio::piped()).stderr(Stdio::null()).output();
    o.map(|o| String::from_utf8_lossy(&o.stdout).lines().filter(|l| l.starts_with("H ")).map(String::from).collect()).unwrap_or_default()
}

pub fn gen_cmd() -> i32 {
    let prop = arg("--prop").unwrap_or_default();
    let sc = scenario(&prop, arg("--family").as_deref(), num("--hseed", 0), num("--phase", 0));
    println!("{}", serde_json::to_string(&sc).unwrap_or_default());
    0
}

pub fn replay() -> i32 {
    let f = std::env::args().nth(2).unwrap_or_default();
    let Some(r) = std::fs::read(&f).ok().and_then(|b| serde_json::from_slice::<Replay>(&b).ok()) else {
        eprintln!("cannot read {f}");
        return 2;
    };
    println!("property {}, {}", r.property, describe(&r.scenario));
    let o = run_one(&r.past, &r.scenario, &r.property, true);
    for l in &o.trace {
        println!("  {l}");
    }
    let _ = std::fs::remove_dir_all(scratch());
    match &o.violation {
        Some(v) => {
            let same = v.what == r.violation.what && o.trace_hash == r.trace_hash && o.exit == r.exit;
            println!("step {} {}: {}", v.step, v.op, v.what);
            println!("{}", if same { "reproduced exactly" } else { "violated, but not in the same way as recorded" });
            println!("VIOLATION property={} replay={f}", r.property);
            1
        }
        None => {
            println!("not violated on this tree");
            0
        }
    }
}
