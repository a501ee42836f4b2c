//! Runs one scenario: sets up the simulated machine, runs every step's actors under the scheduler,
//! and hands what happened to the judge.
use crate::actor::{self, Res};
use crate::content::{self, FileSpec};
use crate::creds::{self, Cred, KeyFmt};
use crate::judge::{self, Hist};
use crate::refimpl;
use crate::rng::{derive, hash_str};
use crate::scenario::{Op, Scenario, Step};
use crate::sys;
use crate::world::{Call, CrashKind, EventKind, World};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub type Files = BTreeMap<String, Option<Arc<Vec<u8>>>>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub props: Vec<String>,
    pub step: usize,
    pub actor: i64,
    pub op: String,
    pub what: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    pub violations: Vec<Violation>,
    pub trace_hash: u64,
    pub elapsed_ns: u64,
    pub calls: u64,
    pub switches: u64,
    pub actors: u64,
    pub fired: BTreeMap<String, u64>,
    pub outcomes: BTreeMap<String, u64>,
    /// distinct (operation, input class, faults, outcome) tuples
    pub states: Vec<u64>,
    /// per step: system calls, and how many of each class
    pub step_calls: Vec<(u64, BTreeMap<Call, u64>)>,
    /// judged facts per property
    pub judged: BTreeMap<String, u64>,
    pub trace: Vec<String>,
}

pub enum Done {
    Res(Res),
    Panic(String),
    /// its process or its machine died; it reported nothing
    Dead,
}

/// Everything observed about one step
pub struct Obs<'a> {
    pub step: &'a Step,
    pub index: usize,
    pub pre: Files,
    pub post: Files,
    pub alias: BTreeMap<String, String>,
    pub modes: (BTreeMap<String, u32>, BTreeMap<String, u32>),
    pub seen: Vec<(u64, u32, String, Option<Arc<Vec<u8>>>)>,
    pub done: Vec<Done>,
    pub exit: Vec<Option<i32>>,
    pub hard: BTreeMap<u32, u64>,
    pub clock_reads: Vec<(u32, i128)>,
    pub clock_before: i128,
    pub clock_after: i128,
    pub out: BTreeMap<u32, Vec<u8>>,
    pub err: BTreeMap<u32, Vec<u8>>,
    pub events_fired: u64,
    /// contents a file had while its environment changed it
    pub versions: BTreeMap<String, Vec<Arc<Vec<u8>>>>,
    pub runaway: bool,
    pub powered_off: bool,
}

static PANICS: Mutex<BTreeMap<u32, String>> = Mutex::new(BTreeMap::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let a = sys::actor();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if a == sys::NO_ACTOR {
            eprintln!("harness panic: {m} at {loc}");
        }
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).insert(a, format!("{m} at {loc}"));
    }));
}
pub fn take_panic(a: u32) -> String {
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).remove(&a).unwrap_or_else(|| "panic".into())
}

pub fn snapshot(w: &World) -> (Files, BTreeMap<String, String>) {
    let mut f = Files::new();
    let mut al = BTreeMap::new();
    for p in w.list() {
        al.insert(p.clone(), w.resolve(&p));
        f.insert(p.clone(), w.get(&p));
    }
    (f, al)
}

pub fn outputs(op: &Op) -> Vec<String> {
    match op {
        Op::Sign { output, .. }
        | Op::Dump { output, .. }
        | Op::LibSign { output, .. }
        | Op::AddStamp { output, .. } => vec![output.clone()],
        Op::Object { script, .. } => script
            .iter()
            .filter_map(|o| match o {
                crate::scenario::ObjOp::Write { to } | crate::scenario::ObjOp::TraitWrite { to } => Some(to.clone()),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}
pub fn input(op: &Op) -> Option<&str> {
    match op {
        Op::Sign { input, .. }
        | Op::Dump { input, .. }
        | Op::Digest { input, .. }
        | Op::Inspect { input }
        | Op::LibSign { input, .. }
        | Op::AddStamp { input, .. }
        | Op::Object { input, .. }
        | Op::Verify { input, .. }
        | Op::Info { input, .. }
        | Op::Parse { input } => Some(input),
        _ => None,
    }
}

pub fn setup(sc: &Scenario) -> (World, Vec<Arc<Cred>>) {
    let mut w = World::new(sc.seed);
    for d in ["/sim/in", "/sim/out", "/sim/keys"] {
        w.put_dir(d);
    }
    w.tick = sc.tick.max(1);
    w.clock = sc.clock as i128 * 1_000_000_000;
    let creds: Vec<Arc<Cred>> = sc.creds.iter().map(creds::build).collect();
    for (i, c) in creds.iter().enumerate() {
        if sc.creds[i].fmt == KeyFmt::P12 {
            w.put(&format!("/sim/keys/{i}.p12"), c.key_file.clone());
        } else {
            w.put(&format!("/sim/keys/{i}.key"), c.key_file.clone());
            w.put(&format!("/sim/keys/{i}.crt"), c.cert_file.clone());
        }
        w.put(&format!("/sim/keys/{i}.root"), creds::pem_cert(&c.root));
    }
    for (p, f) in &sc.files {
        match f {
            FileSpec::Dir => w.put_dir(p),
            FileSpec::Link(t) => w.put_link(p, t),
            f => {
                w.put(p, content::build(f));
                let modes = [0o644, 0o644, 0o600, 0o755, 0o640, 0o444];
                w.set_mode(p, modes[(derive(&[sc.seed, hash_str(p)]) % 6) as usize]);
            }
        }
    }
    (w, creds)
}

pub fn run(sc: &Scenario, want_trace: bool) -> Report {
    let (mut w, creds) = setup(sc);
    if want_trace {
        w.trace = Some(vec![]);
    }
    let mut rep = Report::default();
    let mut hist = Hist::new();
    for (p, f) in &sc.files {
        if matches!(f, FileSpec::Zip(_) | FileSpec::Elf(_)) {
            if let Some(d) = w.get(p) {
                hist.pristine(&d);
            }
        }
    }
    let scen = Arc::new(sc.clone());
    *sys::world() = Some(Box::new(w));
    for (i, step) in sc.steps.iter().enumerate() {
        if step.ops.is_empty() {
            rep.step_calls.push(Default::default());
            continue;
        }
        if step.ops[0].env() {
            for op in step.ops.iter().filter(|o| o.env()) {
                let mut g = sys::world();
                let Some(w) = g.as_mut() else { continue };
                judge::env_op(w, op, &creds, &mut hist, sc.seed ^ i as u64);
                *rep.outcomes.entry(op.name().to_string()).or_default() += 1;
            }
            rep.step_calls.push(Default::default());
            continue;
        }
        let (obs, calls, classes, switches) = run_step(&scen, i, step, &creds);
        rep.switches += switches;
        rep.actors += obs.done.len() as u64;
        rep.step_calls.push((calls, classes));
        judge::judge(sc, &creds, &obs, &mut hist, &mut rep);
        if rep.violations.len() > 20 {
            break;
        }
    }
    let w = sys::world().take();
    if let Some(w) = w {
        rep.trace_hash = w.trace_hash;
        rep.elapsed_ns = w.elapsed as u64;
        rep.fired = w.fired.clone();
        rep.trace = w.trace.unwrap_or_default();
    }
    rep.calls = rep.step_calls.iter().map(|s| s.0).sum();
    rep.states.sort_unstable();
    rep.states.dedup();
    rep
}

fn run_step<'a>(
    scen: &Arc<Scenario>,
    index: usize,
    step: &'a Step,
    creds: &[Arc<Cred>],
) -> (Obs<'a>, u64, BTreeMap<Call, u64>, u64) {
    let (pre, mut alias, modes0, classes0, total, clock_before);
    {
        let mut g = sys::world();
        let w = g.as_mut().expect("world");
        w.begin_step();
        w.faults = step.faults.clone();
        w.events = step.events.clone();
        w.crash = step.crash.clone();
        let s = snapshot(w);
        pre = s.0;
        alias = s.1;
        modes0 = w.list().into_iter().filter_map(|p| w.mode_of(&p).map(|m| (p, m))).collect();
        classes0 = w.per_class.clone();
        total = w.total_bytes();
        clock_before = w.clock;
        let mut watch: Vec<String> = step.ops.iter().flat_map(outputs).collect();
        for o in &watch {
            alias.entry(o.clone()).or_insert_with(|| w.resolve(o));
        }
        for e in &step.events {
            if let EventKind::Truncate { file, .. } | EventKind::Append { file, .. } = &e.kind {
                watch.push(file.clone());
            }
        }
        watch.sort();
        watch.dedup();
        w.watch_start(watch);
    }
    let n = step.ops.len() as u32;
    let process = n == 1
        && step.crash.is_none()
        && matches!(&step.ops[0],
            Op::Sign { process: true, .. } | Op::Dump { process: true, .. } | Op::Info { process: true, .. }
            | Op::Digest { via: crate::scenario::Via::Process, .. }
            | Op::Verify { via: crate::scenario::Via::Process, .. });
    let envs: Vec<actor::Env> = step
        .ops
        .iter()
        .map(|op| {
            let d = input(op).and_then(|p| pre.get(p).cloned().flatten());
            let is_elf = d.as_ref().is_some_and(|d| d.starts_with(&[0x7f, b'E', b'L', b'F']));
            let (mut offsets, mut secs) = (None, None);
            if let (Op::Digest { sections, .. }, Some(d)) = (op, &d) {
                if is_elf {
                    secs = refimpl::elf_sections(d, &judge::names(sections)).ok();
                } else if let Some(l) = refimpl::zip_layout(d) {
                    offsets = l.content_end().map(|e| [e, l.cd, l.eocd, l.len]);
                }
            }
            actor::Env { creds: creds.to_vec(), scen: scen.clone(), is_elf, offsets, secs }
        })
        .collect();
    let mut done = vec![];
    let mut exit = vec![None; n as usize];
    let switches;
    if process {
        let (d, code) = crate::process::run(scen, &step.ops[0]);
        done.push(d);
        exit[0] = code;
        switches = 0;
    } else {
        sys::sched_start(n, step.preempt.clone(), step.first.min(n - 1));
        crate::alloc::arm((96 << 20) + 16 * total);
        let hs: Vec<_> = envs
            .into_iter()
            .enumerate()
            .map(|(a, env)| {
                let op = step.ops[a].clone();
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        let a = a as u32;
                        sys::set_actor(a);
                        sys::wait_turn(a);
                        let r = catch_unwind(AssertUnwindSafe(|| actor::run(&op, &env)));
                        let r = match r {
                            Ok(r) => Done::Res(r),
                            Err(_) => Done::Panic(take_panic(a)),
                        };
                        drop(env);
                        sys::actor_done(a);
                        sys::set_actor(sys::NO_ACTOR);
                        r
                    })
                    .expect("thread")
            })
            .collect();
        for h in hs {
            done.push(h.join().unwrap_or_else(|_| Done::Panic("thread died".into())));
        }
        crate::alloc::disarm();
        switches = sys::sched_stop();
    }
    let mut g = sys::world();
    let w = g.as_mut().expect("world");
    let calls = w.calls;
    let killed = w.killed;
    let power = match &step.crash {
        Some(c) => match c.kind {
            CrashKind::Power { seed } => Some(seed),
            _ => None,
        },
        None => None,
    };
    let runaway = w.runaway;
    let seen = std::mem::take(&mut w.seen);
    let events_fired = w.events_fired;
    if let Some(seed) = power {
        w.recover(seed);
    }
    w.settle();
    for (a, d) in done.iter_mut().enumerate() {
        if (power.is_some() || killed == Some(a as u32)) && !matches!(d, Done::Panic(_)) {
            *d = Done::Dead;
        }
    }
    let (post, al) = snapshot(w);
    for (k, v) in al {
        alias.entry(k).or_insert(v);
    }
    let modes1 = w.list().into_iter().filter_map(|p| w.mode_of(&p).map(|m| (p, m))).collect();
    let mut versions: BTreeMap<String, Vec<Arc<Vec<u8>>>> = BTreeMap::new();
    for e in &step.events {
        if let EventKind::Truncate { file, .. } | EventKind::Append { file, .. } = &e.kind {
            let v = versions.entry(file.clone()).or_default();
            if v.is_empty() {
                v.extend(seen.iter().filter(|s| s.2 == *file).filter_map(|s| s.3.clone()));
            }
        }
    }
    let mut classes = w.per_class.clone();
    for (k, v) in classes.iter_mut() {
        *v -= classes0.get(k).copied().unwrap_or(0);
    }
    let obs = Obs {
        step,
        index,
        pre,
        post,
        alias,
        modes: (modes0, modes1),
        seen,
        done,
        exit,
        hard: w.hard_by_actor.clone(),
        clock_reads: w.clock_reads.clone(),
        clock_before,
        clock_after: w.clock,
        out: std::mem::take(&mut w.out),
        err: std::mem::take(&mut w.err),
        events_fired,
        versions,
        runaway,
        powered_off: power.is_some(),
    };
    (obs, calls, classes, switches)
}

pub fn state_hash(parts: &[&str]) -> u64 {
    derive(&parts.iter().map(|p| hash_str(p)).collect::<Vec<_>>())
}
