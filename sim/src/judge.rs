//! The oracle: decides from what was observed whether the listed properties hold, using only the
//! reference model (`refimpl`), never the code under test, except where a property is about the
//! code reading back what it wrote.
use crate::actor::{Claims, PARSE_BEFORE, PARSE_EXTRA, PARSE_ID, self, Blk, Out, Res};
use crate::content;
use crate::creds::{Cred, CertInfo, Key, KeyFmt, State};
use crate::exec::{input, outputs, state_hash, Done, Obs, Report, Violation};
use crate::refimpl::{self, BlockState, RefBlock, RefSigner, ZipLayout};
use crate::scenario::{ForgeKind, ObjOp, Op, Pw, Root, Scenario, Via};
use crate::world::{Call, World};
use sha2::{Digest, Sha256, Sha384, Sha512};
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;

pub struct SignRec {
    pub v2: Option<u32>,
    pub stamp: Option<u32>,
    /// digest of the payload, by SHA-256
    pub payload: Vec<u8>,
    pub file: [u8; 32],
}
pub struct Hist {
    pristine: HashSet<[u8; 32]>,
    pub signs: Vec<SignRec>,
    /// something was signed while its file changed: the payload is not known
    unknown: bool,
}
fn fp(d: &[u8]) -> [u8; 32] {
    Sha256::digest(d).into()
}
impl Hist {
    pub fn new() -> Self {
        Hist { pristine: HashSet::new(), signs: vec![], unknown: false }
    }
    pub fn pristine(&mut self, d: &[u8]) {
        self.pristine.insert(fp(d));
    }
    fn is_pristine(&self, d: &[u8]) -> bool {
        self.pristine.contains(&fp(d))
    }
}

/// Section names as the tool takes them: none given means its documented defaults
pub fn names(s: &[String]) -> Vec<String> {
    if s.is_empty() {
        vec![".text".into(), ".rodata".into()]
    } else {
        // blanks around a name do not count
        s.iter().map(|n| n.trim().to_string()).filter(|n| !n.is_empty()).collect()
    }
}

fn is_elf(d: &[u8]) -> bool {
    d.starts_with(&[0x7f, b'E', b'L', b'F'])
}

/// Is the section table such that everybody agrees on what the sections are?
fn sane_elf(d: &[u8]) -> bool {
    let Some(l) = refimpl::elf_layout(d) else { return false };
    if l.shnum < 2 || l.shstrndx >= l.shnum || l.shstrndx == 0 {
        return false;
    }
    let inside = |s: &refimpl::Sec| s.ty == 8 || s.off.checked_add(s.size).is_some_and(|e| e <= d.len() as u64);
    // names that run into the end of their table are nobody's names
    let st = &l.secs[l.shstrndx];
    if !inside(st) || st.ty == 8 || st.size == 0 || d[(st.off + st.size - 1) as usize] != 0 {
        return false;
    }
    let mut n: Vec<_> = l.secs.iter().skip(1).map(|s| s.name.as_str()).collect();
    n.sort_unstable();
    let k = n.len();
    n.dedup();
    n.len() == k && n[0] != "" && l.secs.iter().skip(1).all(inside) && l.secs[0].name.is_empty() && l.secs[0].size == 0
}

/// What a file is, seen as a module
enum Zip {
    No,
    Damaged(String),
    Unsigned(ZipLayout),
    Signed(ZipLayout, RefBlock),
    /// framing intact, inside not as the signer writes it
    Odd(ZipLayout),
}
fn zip_class(d: &[u8]) -> Zip {
    let Some(l) = refimpl::zip_layout(d) else { return Zip::No };
    match &l.block {
        BlockState::Absent => Zip::Unsigned(l),
        BlockState::Damaged(w) => Zip::Damaged(w.clone()),
        BlockState::Framed { start } => match refimpl::parse_block(&d[*start..l.cd]) {
            Ok(b) => Zip::Signed(l, b),
            Err(_) => match refimpl::broken_block(&d[*start..l.cd]) {
                Some(e) => Zip::Damaged(e),
                None => Zip::Odd(l),
            },
        },
    }
}
fn class_name(d: Option<&[u8]>) -> &'static str {
    match d {
        None => "missing",
        Some(d) if is_elf(d) => {
            if refimpl::elf_block(d).is_some() {
                "elf-signed"
            } else {
                "elf"
            }
        }
        Some(d) => match zip_class(d) {
            Zip::No => "no-zip",
            Zip::Damaged(_) => "zip-damaged",
            Zip::Unsigned(_) => "zip-unsigned",
            Zip::Signed(..) => "zip-signed",
            Zip::Odd(_) => "zip-odd",
        },
    }
}

/// (properties, message)
type Bad = (&'static str, String);

/// What a signed output has to be
#[derive(Clone)]
struct Want<'a> {
    v2: Option<&'a Cred>,
    /// with the certificates after the leaf
    chain: bool,
    stamp: Option<&'a Cred>,
    timestamp: bool,
    padded: bool,
    /// explicitly without padding
    bare: bool,
    sections: Vec<String>,
    /// seconds the actor was shown by its clock
    times: Vec<i64>,
    /// pairs of the old block that must still be there (adding a stamp)
    keep: Option<Vec<(u32, Vec<u8>)>>,
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("first difference at {i}, lengths {} / {}", a.len(), b.len()),
        None => format!("lengths {} / {}", a.len(), b.len()),
    }
}

fn check_digests(s: &RefSigner, d: &[u8], elf: bool, sections: &[String], own: u32, who: &str) -> Result<(), Bad> {
    let props = if elf { "C03,C02" } else { "C03,C01" };
    if !s.digests.iter().any(|x| x.0 == own) {
        return Err((props, format!("{who}: no digest for the signer's algorithm {own:#x}")));
    }
    for (i, (a, v)) in s.digests.iter().enumerate() {
        if s.digests[..i].iter().any(|x| x.0 == *a) {
            return Err((props, format!("{who}: two digests for algorithm {a:#x}")));
        }
        let want = if elf {
            refimpl::elf_digest(d, &names(sections), *a).ok()
        } else {
            refimpl::zip_digest(d, *a)
        };
        if *a != refimpl::ALG256 && *a != refimpl::ALG512 {
            return Err((props, format!("{who}: digest for unknown algorithm {a:#x}")));
        }
        if want.as_deref() != Some(v) {
            return Err((
                props,
                format!("{who}: digest {a:#x} is {}, the payload's is {:?}", refimpl::short(v), want.map(|w| refimpl::short(&w))),
            ));
        }
    }
    Ok(())
}

fn check_signer(s: &RefSigner, c: &Cred, chain: bool, exact: bool, who: &str) -> Result<(), Bad> {
    if s.certs.first() != Some(&c.leaf) {
        return Err(("C03,C16", format!("{who}: first certificate is not the signer's")));
    }
    let rest = &s.certs[1..];
    if exact {
        let want: &[Vec<u8>] = if chain { &c.chain } else { &[] };
        if rest != want {
            return Err(("C03,C16,C10", format!("{who}: {} certificates after the leaf, expected {}", rest.len(), want.len())));
        }
    } else if !rest.is_empty() && rest != &c.chain[..] {
        return Err(("C03,C16", format!("{who}: foreign certificates")));
    }
    if s.key != c.spki {
        return Err(("C03,C16", format!("{who}: public key is not the signer's")));
    }
    if s.sigs.len() != 1 || s.sigs[0].0 != c.alg {
        return Err(("C03", format!("{who}: {} signatures, algorithms {:x?}", s.sigs.len(), s.sigs.iter().map(|x| x.0).collect::<Vec<_>>())));
    }
    refimpl::verify_signer(s).map_err(|e| ("C03", format!("{who}: {e}")))
}

/// The full independent check of a signed file against the file it was made from
fn check_signed(inp: &[u8], out: &[u8], w: &Want) -> Result<(), Bad> {
    let elf = is_elf(inp);
    let block: Vec<u8>;
    if elf {
        refimpl::elf_preserved(inp, out).map_err(|e| ("C05,C03", e))?;
        block = refimpl::elf_block(out).ok_or(("C05,C03", "no readable signature section".to_string()))?;
    } else {
        let a = refimpl::zip_strip(inp).ok_or(("C04,C07", "signed something that is no module".to_string()))?;
        let l = refimpl::zip_layout(out).ok_or(("C04,C03,C12", "output is no module".to_string()))?;
        match &l.block {
            BlockState::Framed { start } => block = out[*start..l.cd].to_vec(),
            BlockState::Absent => return Err(("C03,C04,C12", "output has no signing block".into())),
            BlockState::Damaged(e) => return Err(("C12,C03,C04", format!("output block: {e}"))),
        }
        let b = refimpl::zip_strip(out).ok_or(("C04", "output cannot be stripped".to_string()))?;
        if a != b {
            return Err(("C04", format!("payload changed: {}", first_diff(&a, &b))));
        }
    }
    let r = refimpl::parse_block(&block).map_err(|e| ("C12,C03", format!("emitted block: {e}")))?;
    let pads = r.pairs.iter().filter(|p| p.0 == refimpl::PAD_ID).count();
    if pads > 1 {
        return Err(("C12", format!("{pads} padding pairs")));
    }
    if w.bare && pads > 0 {
        return Err(("C12", "padding nobody asked for".into()));
    }
    if w.padded && !elf && block.len() % 4096 != 0 {
        return Err(("C12", format!("padded block has {} bytes", block.len())));
    }
    match w.v2 {
        Some(c) => {
            if r.v2.len() != 1 || r.v2[0].len() != 1 {
                return Err(("C03,C04", format!("{} signature pairs, signers {:?}", r.v2.len(), r.v2.iter().map(Vec::len).collect::<Vec<_>>())));
            }
            let s = &r.v2[0][0];
            check_signer(s, c, w.chain, true, "signature")?;
            check_digests(s, out, elf, &w.sections, c.alg, "signature")?;
        }
        None => {
            if w.keep.is_none() && !r.v2.is_empty() {
                return Err(("C03,C11", "a signature nobody asked for".into()));
            }
        }
    }
    match w.stamp {
        Some(c) => {
            if r.stamps.len() != 1 {
                return Err(("C11,C03", format!("{} stamps instead of one", r.stamps.len())));
            }
            let s = &r.stamps[0];
            check_signer(s, c, false, false, "stamp").map_err(|(_, e)| ("C11,C03", e))?;
            check_digests(s, out, elf, &w.sections, c.alg, "stamp").map_err(|(_, e)| ("C11,C03", e))?;
            let t: Vec<_> = s.attrs.iter().filter(|a| a.0 == refimpl::TIME_ATTR).collect();
            if w.timestamp {
                if t.len() != 1 || t[0].1.len() != 8 {
                    return Err(("C11", format!("{} time attributes in the stamp", t.len())));
                }
                let v = u64::from_le_bytes(t[0].1[..8].try_into().unwrap_or_default());
                if !w.times.iter().any(|x| *x >= 0 && *x as u64 == v) {
                    return Err(("C11", format!("stamp time {v}, the clock said {:?}", w.times)));
                }
            } else if !t.is_empty() {
                return Err(("C11", "a stamp time nobody asked for".into()));
            }
        }
        None => {
            if !r.stamps.is_empty() {
                return Err(("C11,C03,C04", "a stamp nobody asked for (left over from before?)".into()));
            }
        }
    }
    if let Some(k) = &w.keep {
        let left: Vec<_> =
            r.pairs.iter().filter(|p| p.0 != refimpl::STAMP_ID && p.0 != refimpl::PAD_ID).cloned().collect();
        if &left != k {
            return Err(("C11,C03", "adding a stamp changed the rest of the block".into()));
        }
    } else if elf {
        let want = refimpl::elf_sections(inp, &names(&w.sections)).map_err(|e| ("C02,C07", e))?;
        if r.elf != vec![want.clone()] {
            return Err(("C02,C05,C03", format!("recorded sections {:?}, signed {:?}", r.elf, want)));
        }
    } else if !r.elf.is_empty() {
        return Err(("C12,C03", "section list in a module".into()));
    }
    let known = [refimpl::V2_ID, refimpl::STAMP_ID, refimpl::PAD_ID, refimpl::ELF_ID];
    if w.keep.is_none() {
        if let Some(p) = r.pairs.iter().find(|p| !known.contains(&p.0)) {
            return Err(("C12,C04", format!("unknown pair {:#x} in the emitted block", p.0)));
        }
    }
    // the tool accepts what it wrote
    let back = std::panic::catch_unwind(|| ksusig::SigningBlock::from_u8(&block).map(|b| b.to_u8()));
    match back {
        Ok(Ok(b)) if b == block => Ok(()),
        Ok(Ok(b)) => Err(("C12", format!("block reads back as other bytes: {}", first_diff(&block, &b)))),
        Ok(Err(e)) => Err(("C12,C03", format!("emitted block is not accepted back: {e}"))),
        Err(_) => Err(("C12,C08", format!("reading the emitted block back panics: {}", crate::exec::take_panic(crate::sys::NO_ACTOR)))),
    }
}

#[derive(Debug)]
enum Expect {
    Ok,
    Err(&'static str, String),
    Either,
}

/// (least, most) bytes of the block without padding
fn block_size(w: &Want, info: usize) -> (usize, usize) {
    let algs = |own: u32| {
        let mut v = vec![own];
        for c in [w.v2, w.stamp].into_iter().flatten() {
            if !v.contains(&c.alg) {
                v.push(c.alg);
            }
        }
        v
    };
    let dl = |own: u32| -> usize { algs(own).iter().map(|a| 12 + if *a == refimpl::ALG256 { 32 } else { 64 }).sum() };
    let sig = |c: &Cred| if c.alg == refimpl::ALG256 { (60usize, 72usize) } else { (90, 104) };
    let mut lo = 32;
    if let Some(k) = &w.keep {
        lo += k.iter().map(|(_, v)| 12 + v.len()).sum::<usize>();
    }
    let mut hi = lo;
    let mut add = |c: &Cred, certs: usize, attrs: usize, tail: usize| {
        let signed = 4 + dl(c.alg) + 4 + certs + 4 + attrs + tail;
        let fixed = 8 + 4 + 4 + 4 + 4 + signed + 4 + 12 + 4 + c.spki.len();
        lo += fixed + sig(c).0 - 8;
        hi += fixed + sig(c).1;
    };
    if let Some(c) = w.v2 {
        let certs = 4 + c.leaf.len() + if w.chain { c.chain.iter().map(|x| 4 + x.len()).sum() } else { 0usize };
        add(c, certs, 0, 4);
    }
    if let Some(c) = w.stamp {
        add(c, 4 + c.leaf.len(), if w.timestamp { 16 } else { 0 }, 0);
    }
    if w.padded && info > 0 {
        hi = (hi + 20).div_ceil(4096) * 4096;
        lo = lo.div_ceil(4096) * 4096;
    }
    (lo + info, hi + info)
}

fn sign_expect(inp: Option<&[u8]>, w: &Want, hist: &Hist, pw_ok: bool, out_ok: bool) -> Expect {
    let Some(d) = inp else { return Expect::Err("C07", "input does not exist".into()) };
    if !pw_ok {
        return Expect::Err("C16,C07", "wrong or missing password, or damaged credentials".into());
    }
    let mut info = 0;
    let elf = is_elf(d);
    if elf {
        if !hist.is_pristine(d) {
            return Expect::Either;
        }
        match refimpl::elf_digest(d, &names(&w.sections), refimpl::ALG256) {
            Err(e) => return Expect::Err("C02,C07", e),
            Ok(_) => {
                let s = refimpl::elf_sections(d, &names(&w.sections)).unwrap_or_default();
                info = 12 + 4 + s.iter().map(|x| 18 + x.0.len()).sum::<usize>();
            }
        }
    } else {
        if !w.sections.is_empty() {
            return Expect::Err("C02,C07", "sections of a module".into());
        }
        match zip_class(d) {
            Zip::No => return Expect::Err("C07", "not a module".into()),
            Zip::Damaged(e) => return Expect::Err("C07,C04", format!("damaged signing block: {e}")),
            Zip::Odd(_) => return Expect::Either,
            _ => {}
        }
    }
    if !out_ok {
        return Expect::Err("C07", "output cannot be created".into());
    }
    if w.stamp.is_some() && w.timestamp && !w.times.is_empty() {
        if w.times.iter().all(|t| *t < 0) {
            return Expect::Err("C11,C07", "clock before 1970".into());
        }
        if w.times.iter().any(|t| *t < 0) {
            return Expect::Either;
        }
    }
    let (lo, hi) = block_size(w, info);
    if lo > refimpl::LIMIT + 8 {
        return Expect::Err("C12,C03", format!("block of at least {lo} bytes does not fit"));
    }
    let room = if elf { refimpl::LIMIT + 8 } else { refimpl::LIMIT - 24 };
    if hi > room {
        return Expect::Either;
    }
    Expect::Ok
}

struct Ctx<'a> {
    sc: &'a Scenario,
    creds: &'a [Arc<Cred>],
    o: &'a Obs<'a>,
    rep: &'a mut Report,
    bad: Vec<(i64, String, String, String)>,
}

impl<'a> Ctx<'a> {
    fn fail(&mut self, actor: usize, props: &str, what: String) {
        let op = self.o.step.ops[actor].name().to_string();
        self.bad.push((actor as i64, op, props.to_string(), what));
    }
    fn judged(&mut self, props: &str) {
        for p in props.split(',') {
            *self.rep.judged.entry(p.to_string()).or_default() += 1;
        }
    }
    fn pre(&self, p: &str) -> Option<&'a [u8]> {
        self.o.pre.get(p).and_then(|d| d.as_deref()).map(|v| v.as_slice())
    }
    fn post(&self, p: &str) -> Option<&'a [u8]> {
        self.o.post.get(p).and_then(|d| d.as_deref()).map(|v| v.as_slice())
    }
    fn hard(&self, a: usize) -> bool {
        self.o.hard.get(&(a as u32)).copied().unwrap_or(0) > 0
    }
    fn times(&self, a: usize) -> Vec<i64> {
        self.o
            .clock_reads
            .iter()
            .filter(|c| c.0 == a as u32)
            .map(|c| c.1.div_euclid(1_000_000_000) as i64)
            .collect()
    }
    fn cred(&self, i: u32) -> &'a Cred {
        &self.creds[i as usize]
    }
    fn alias(&self, p: &str) -> String {
        self.o.alias.get(p).cloned().unwrap_or_else(|| p.to_string())
    }
    /// Is the input replaced by another actor of this step?
    fn unstable(&self, a: usize, p: &str) -> bool {
        let t = self.alias(p);
        self.o
            .step
            .ops
            .iter()
            .enumerate()
            .any(|(i, op)| i != a && outputs(op).iter().any(|x| self.alias(x) == t))
    }
    /// Contents the input had during the step
    fn versions(&self, p: &str) -> Vec<Arc<Vec<u8>>> {
        if let Some(v) = self.o.versions.get(p) {
            if !v.is_empty() {
                return v.clone();
            }
        }
        self.o.pre.get(p).cloned().flatten().into_iter().collect()
    }
    fn want(&self, a: usize, op: &Op) -> Option<Want<'a>> {
        let times = self.times(a);
        Some(match op {
            Op::Sign { v2, stamp, sections, .. } => Want {
                v2: Some(self.cred(*v2)),
                chain: true,
                stamp: stamp.map(|t| self.cred(t)),
                timestamp: true,
                padded: true,
                bare: false,
                sections: sections.clone(),
                times,
                keep: None,
            },
            Op::LibSign { v2, stamp, timestamp, padding, sections, old_stamp, .. } => Want {
                v2: v2.map(|t| self.cred(t)),
                chain: true,
                stamp: stamp.map(|t| self.cred(t)),
                timestamp: *timestamp || (*old_stamp && false),
                padded: *padding,
                bare: !*padding,
                sections: sections.clone(),
                times,
                keep: None,
            },
            _ => return None,
        })
    }
    fn protected(&self, i: u32) -> bool {
        matches!(self.sc.creds[i as usize].fmt, KeyFmt::P12 | KeyFmt::EncPkcs8)
    }
}

pub fn judge(sc: &Scenario, creds: &[Arc<Cred>], o: &Obs, hist: &mut Hist, rep: &mut Report) {
    let mut c = Ctx { sc, creds, o, rep, bad: vec![] };
    let multi = o.step.ops.len() > 1;
    for (a, op) in o.step.ops.iter().enumerate() {
        attempted(&c, hist, a, op);
    }
    let kinds: Vec<String> = o.step.faults.iter().map(|f| format!("{:?}{:?}", f.call, std::mem::discriminant(&f.kind))).collect();
    for (a, op) in o.step.ops.iter().enumerate() {
        let class = class_name(input(op).and_then(|p| c.pre(p)));
        let (outcome, detail) = match &o.done[a] {
            Done::Res(Ok(_)) => ("ok", String::new()),
            Done::Res(Err(e)) => ("err", e.chars().filter(|c| c.is_alphabetic()).take(24).collect()),
            Done::Panic(m) => {
                let m = m.clone();
                // a program whose standard output is gone has nobody to talk to: Rust's print macros
                // end it, and a non-zero status is all that is asked for
                if !(o.step.faults.iter().any(|f| f.file.as_deref() == Some(crate::world::STDOUT)) && m.contains("failed printing to stdout")) {
                    c.fail(a, "C08", format!("panic: {m}"));
                }
                ("panic", String::new())
            }
            Done::Dead => ("dead", String::new()),
        };
        *c.rep.outcomes.entry(format!("{}/{}/{}", op.name(), class, outcome)).or_default() += 1;
        c.rep.states.push(state_hash(&[
            op.name(),
            class,
            outcome,
            &detail,
            &kinds.join("+"),
            &format!("{:?}", o.step.crash.as_ref().map(|x| (x.at, std::mem::discriminant(&x.kind)))),
            &format!("{}", o.step.ops.len()),
        ]));
        c.judged("C08");
        one(&mut c, hist, a, op);
    }
    if o.runaway {
        c.fail(0, "C08", "keeps making system calls without end".into());
    }
    atomicity(&mut c, hist);
    bystanders(&mut c);
    exits(&mut c);
    let bad = std::mem::take(&mut c.bad);
    if multi {
        c.judged("C15");
    }
    for (actor, op, props, what) in bad {
        let mut ps: Vec<String> = props.split(',').map(String::from).collect();
        if multi {
            ps.push("C15".into());
        }
        if actor >= 0 && o.exit[actor as usize].is_some() && !ps.contains(&"C08".to_string()) {
            ps.push("C07".into());
        }
        ps.sort();
        ps.dedup();
        c.rep.violations.push(Violation { props: ps, step: o.index, actor, op, what });
    }
}

/// Whoever starts signing may have signed, whatever comes of it.
fn attempted(c: &Ctx, hist: &mut Hist, a: usize, op: &Op) {
    let mut who: Vec<(Option<u32>, Option<u32>)> = vec![];
    match op {
        Op::Sign { v2, stamp, .. } => who.push((Some(*v2), *stamp)),
        Op::LibSign { v2, stamp, .. } => who.push((*v2, *stamp)),
        Op::AddStamp { stamp, .. } => who.push((None, Some(*stamp))),
        Op::Object { script, .. } => {
            for o in script {
                if let ObjOp::Sign { cred } = o {
                    who.push((Some(*cred), None));
                }
            }
        }
        _ => return,
    }
    let Some(i) = input(op) else { return };
    if c.unstable(a, i) || c.o.versions.contains_key(i) {
        hist.unknown = true;
    }
    let Some(d) = c.pre(i) else { return };
    let payload = if is_elf(d) { vec![] } else { refimpl::zip_digest(d, refimpl::ALG256).unwrap_or_default() };
    for (v2, stamp) in who {
        hist.signs.push(SignRec { v2, stamp, payload: payload.clone(), file: [0; 32] });
    }
}

fn out_possible(o: &Obs, p: &str) -> bool {
    // the simulated machine has these directories, and directories among the files
    let t = o.alias.get(p).cloned().unwrap_or_else(|| p.to_string());
    let dir = t.rsplit_once('/').map(|x| x.0).unwrap_or("");
    ["/sim", "/sim/in", "/sim/out", "/sim/keys"].contains(&dir)
}

fn one(c: &mut Ctx, hist: &mut Hist, a: usize, op: &Op) {
    // whoever panics has not done what was asked
    let res: &Res = &match &c.o.done[a] {
        Done::Res(res) => res.clone(),
        Done::Panic(m) => Err(format!("panic: {m}")),
        Done::Dead => return,
    };
    match op {
        Op::Sign { input: i, output, v2, stamp, pw, spw, .. } => {
            if c.unstable(a, i) {
                return;
            }
            let Some(w) = c.want(a, op) else { return };
            let mut used = vec![(*v2, *pw)];
            used.extend(stamp.map(|s| (s, *spw)));
            let pw_ok = used.iter().all(|(k, p)| (*p == Pw::Right || !c.protected(*k)) && c.cred(*k).state != State::Bad);
            let mut ex = sign_expect(c.pre(i), &w, hist, pw_ok, out_possible(c.o, output));
            if matches!(ex, Expect::Ok) && used.iter().any(|(k, _)| c.cred(*k).state == State::Maybe) {
                ex = Expect::Either;
            }
            judge_sign(c, hist, a, i, output, &w, res, ex, true);
        }
        Op::LibSign { input: i, output, v2, stamp, .. } => {
            if c.unstable(a, i) {
                return;
            }
            let Some(w) = c.want(a, op) else { return };
            let ex = if v2.is_none() && stamp.is_none() {
                Expect::Err("C03", "nothing to sign with".into())
            } else {
                sign_expect(c.pre(i), &w, hist, true, out_possible(c.o, output))
            };
            judge_sign(c, hist, a, i, output, &w, res, ex, false);
        }
        Op::AddStamp { input: i, output, stamp, timestamp, padding } => {
            let Some(d) = c.pre(i) else { return };
            let old = if is_elf(d) {
                if !hist.is_pristine(d) {
                    let broken = refimpl::elf_block(d).and_then(|b| refimpl::broken_inside(&b));
                    if let (true, Some(e)) = (res.is_ok() && !c.o.versions.contains_key(i.as_str()), broken) {
                        c.fail(a, "C07,C11", format!("added a stamp to a damaged block: {e}"));
                    }
                    return;
                }
                refimpl::elf_block(d).and_then(|b| refimpl::parse_block(&b).ok())
            } else {
                match zip_class(d) {
                    Zip::Signed(_, b) => Some(b),
                    Zip::Unsigned(_) => None,
                    Zip::No | Zip::Damaged(_) => {
                        if res.is_ok() {
                            c.fail(a, "C07,C11", "added a stamp to a damaged block".into());
                        }
                        return;
                    }
                    Zip::Odd(_) => return,
                }
            };
            let Some(old) = old else {
                if res.is_ok() {
                    c.fail(a, "C07,C11", "added a stamp to an unsigned file".into());
                }
                return;
            };
            let elf_secs = old.elf.first().map(|v| v.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
            let keep: Vec<_> = old
                .pairs
                .iter()
                .filter(|p| p.0 != refimpl::STAMP_ID && p.0 != refimpl::PAD_ID)
                .cloned()
                .collect();
            // the operation signs the default sections
            if is_elf(d) && elf_secs.is_some_and(|s| s != names(&[])) {
                return;
            }
            let w = Want {
                v2: None,
                chain: false,
                stamp: Some(c.cred(*stamp)),
                timestamp: *timestamp,
                padded: *padding && !is_elf(d),
                bare: !*padding,
                sections: vec![],
                times: c.times(a),
                keep: Some(keep),
            };
            let mut ex = sign_expect(Some(d), &w, hist, true, true);
            if matches!(ex, Expect::Ok) && is_elf(d) {
                ex = Expect::Either;
            }
            judge_sign(c, hist, a, i, output, &w, res, ex, false);
        }
        Op::Digest { input: i, alg512, via, base64, sections } => {
            let alg = if *alg512 { refimpl::ALG512 } else { refimpl::ALG256 };
            let got: Result<Vec<u8>, String> = match (res, via) {
                (Err(e), _) => Err(e.clone()),
                (Ok(Out::Bytes(b)), _) => Ok(b.clone()),
                (Ok(_), _) => match actor::printed_digest(c.o.out.get(&(a as u32)).map(|v| v.as_slice()).unwrap_or(&[]), *base64) {
                    Some(b) => Ok(b),
                    None => {
                        c.fail(a, "C01,C02,C07", "the command succeeded without printing a digest".into());
                        return;
                    }
                },
            };
            if c.unstable(a, i) {
                return;
            }
            judge_digest(c, hist, a, i, alg, sections, *via, got);
        }
        Op::Dump { input: i, output, sections, .. } => {
            if c.unstable(a, i) {
                return;
            }
            judge_dump(c, hist, a, i, output, sections, res);
        }
        Op::Inspect { input: i } => {
            if c.unstable(a, i) {
                return;
            }
            judge_inspect(c, hist, a, i, res);
        }
        Op::Object { input: i, raw, script } => judge_object(c, hist, a, i, *raw, script, res),
        Op::Load { cred, pw, .. } => {
            let k = c.cred(*cred);
            let must_err = c.protected(*cred) && *pw != Pw::Right || k.state == State::Bad;
            c.judged("C16");
            match res {
                Ok(Out::Creds { leaf, chain, alg, spki }) => {
                    if must_err {
                        c.fail(a, "C16,C07", format!("{:?} credentials loaded with a {pw:?} password", k.state));
                    } else if leaf != &k.leaf || chain != &k.chain || *alg != k.alg || spki != &k.spki {
                        c.fail(
                            a,
                            "C16",
                            format!(
                                "loaded credentials differ from the file: leaf {} chain {}/{} algorithm {:#x}/{:#x} key {}",
                                leaf == &k.leaf,
                                chain.len(),
                                k.chain.len(),
                                alg,
                                k.alg,
                                spki == &k.spki
                            ),
                        );
                    }
                }
                Ok(_) => {}
                Err(e) => {
                    if !must_err && k.state == State::Good && !c.hard(a) {
                        c.fail(a, "C16", format!("usable credentials are refused: {e}"));
                    }
                }
            }
        }
        Op::Verify { .. } => judge_verify(c, hist, a, op, res),
        Op::Info { input: i, .. } => {
            if c.unstable(a, i) {
                return;
            }
            judge_info(c, hist, a, i, res);
        }
        Op::Parse { input: i } => {
            let Some(d) = c.pre(i) else { return };
            let Ok(Out::Obj(v)) = res else {
                if let (Err(e), Ok(_), false) = (res, refimpl::parse_block(d), c.hard(a)) {
                    c.fail(a, "C12", format!("a well-formed block cannot be handled: {e}"));
                }
                return;
            };
            if let Some(e) = refimpl::broken_inside(d) {
                c.judged("C07,C12");
                if let Some(k) = v.iter().take(3).position(|r| r.is_ok()) {
                    c.fail(a, "C07,C12", format!("reader {k}: damaged block ({e}) is read as intact"));
                }
            }
            if let Ok(r) = refimpl::parse_block(d) {
                c.judged("C12");
                if v.len() != 6 {
                    c.fail(a, "C12", format!("{} answers of 6", v.len()));
                    return;
                }
                for (k, r) in v[..3].iter().enumerate() {
                    // the third is given the block between other bytes
                    let at = if k == 2 { (PARSE_BEFORE, PARSE_BEFORE + d.len()) } else { (0, d.len()) };
                    match r {
                        Ok(Out::Block(Some(b))) if b.bytes != d => c.fail(a, "C12", format!("reader {k}: well-formed block reads back as other bytes")),
                        Ok(Out::Block(Some(b))) if (b.start, b.end) != at => {
                            c.fail(a, "C12", format!("reader {k}: block at {}..{}, it lies at {}..{}", b.start, b.end, at.0, at.1))
                        }
                        Ok(Out::Block(Some(b))) if b.sizes != [d.len() - 8, d.len() - 32, d.len() - 8, d.len()] => {
                            c.fail(a, "C12", format!("reader {k}: sizes {:?} of a block of {} bytes", b.sizes, d.len()))
                        }
                        Ok(_) => {}
                        Err(e) if k == 1 && c.hard(a) => drop(e.clone()),
                        Err(e) => c.fail(a, "C12", format!("reader {k}: well-formed block refused: {e}")),
                    }
                }
                // put together again from its parts: plain, padded, with one more part
                let made = |k: usize| match &v[k] {
                    Ok(Out::Block(Some(b))) => Ok(b.clone()),
                    Ok(_) => Err("no block".to_string()),
                    Err(e) => Err(e.clone()),
                };
                match made(3) {
                    Ok(b) if b.bytes == d && b.sizes == [d.len() - 8, d.len() - 32, d.len() - 8, d.len()] => {}
                    x => c.fail(a, "C12", format!("block put together from the parts of another: {:?}", x.map(|b| (b.bytes == d, b.sizes)))),
                }
                let has = r.pairs.iter().any(|p| p.0 == refimpl::PAD_ID);
                let rem = d.len() % 4096;
                let full = match rem {
                    0 => d.len(),
                    n if 4096 - n >= 12 => d.len() + 4096 - n,
                    n => d.len() + 2 * 4096 - n,
                };
                match made(4) {
                    Ok(_) if has => c.fail(a, "C12", "a second padding is added".into()),
                    Ok(_) if full - 8 > refimpl::LIMIT => c.fail(a, "C12", "a padded block beyond the limit".into()),
                    Ok(b) => {
                        let ok = refimpl::parse_block(&b.bytes).is_ok_and(|x| {
                            let n = r.pairs.len();
                            x.pairs.len() == n + usize::from(rem != 0) && x.pairs[..n] == r.pairs[..] && x.pairs[n..].iter().all(|p| p.0 == refimpl::PAD_ID)
                        });
                        if !ok || b.bytes.len() != full {
                            c.fail(a, "C12", format!("padding a block of {} bytes gives {} bytes, well-formed {ok}", d.len(), b.bytes.len()));
                        }
                    }
                    Err(e) if !has && full - 8 <= refimpl::LIMIT => c.fail(a, "C12", format!("padding a block of {} bytes: {e}", d.len())),
                    Err(_) => {}
                }
                match made(5) {
                    Ok(b) => {
                        let n = d.len() + 12 + PARSE_EXTRA.len();
                        let mut want = r.pairs.clone();
                        want.push((PARSE_ID, PARSE_EXTRA.to_vec()));
                        let ok = n - 8 > refimpl::LIMIT || refimpl::parse_block(&b.bytes).is_ok_and(|x| x.pairs == want);
                        if !ok || b.bytes.len() != n || b.sizes != [n - 8, n - 32, n - 8, n] {
                            c.fail(a, "C12", format!("a part added to a block of {} bytes: {} bytes, sizes {:?}, well-formed {ok}", d.len(), b.bytes.len(), b.sizes));
                        }
                    }
                    Err(e) => c.fail(a, "C12", format!("a part added to a block: {e}")),
                }
            }
        }
        Op::Observe { .. } => {}
        _ => {}
    }
}

#[allow(clippy::too_many_arguments)]
fn judge_sign(c: &mut Ctx, hist: &mut Hist, a: usize, inp: &str, output: &str, w: &Want, res: &Res, ex: Expect, cli: bool) {
    let base = if c.pre(inp).is_some_and(is_elf) { "C03,C05" } else { "C03,C04" };
    c.judged(base);
    c.judged("C12,C16");
    c.judged(if c.pre(inp).is_some_and(is_elf) { "C02" } else { "C01" });
    if w.stamp.is_some() {
        c.judged("C11");
    }
    match res {
        Err(e) => {
            let benign = !c.hard(a) && !c.o.versions.contains_key(inp);
            if benign {
                if let Expect::Ok = ex {
                    let p = if w.stamp.is_some() { "C03,C11" } else { "C03" };
                    let p = if w.keep.is_some() { "C11" } else { p };
                    let p = if is_elf(c.pre(inp).unwrap_or(&[])) { format!("{p},C05") } else { format!("{p},C04,C12") };
                    c.fail(a, &p, format!("signing a well-formed file with usable credentials fails: {e}"));
                }
            }
            if let Expect::Err(p, _) = ex {
                c.judged(p);
            }
        }
        Ok(_) => {
            if let Expect::Err(p, why) = &ex {
                if c.o.versions.contains_key(inp) && !p.contains("C16") {
                    return;
                }
                let p = format!("{p},C03");
                c.fail(a, &p, format!("reported success although: {why}"));
                return;
            }
            // several actors may write the same output: the last one wins
            let shared = c.o.step.ops.iter().enumerate().any(|(i, op)| {
                i != a && outputs(op).iter().any(|x| c.alias(x) == c.alias(output))
            });
            if shared {
                return; // judged over all writers in atomicity()
            }
            if c.pre(inp).is_some_and(|d| is_elf(d) && !hist.is_pristine(d) && !sane_elf(d)) {
                return;
            }
            let Some(out) = c.post(output) else {
                c.fail(a, "C03,C06,C07", "reported success but there is no output file".into());
                return;
            };
            let vs = c.versions(inp);
            if vs.iter().skip(1).any(|v| refimpl::zip_layout(v).is_some() || refimpl::elf_layout(v).is_some()) {
                return;
            }
            let mut err = None;
            // a file that shrinks under its reader ends for it somewhere in between; it must not end
            // before anything that counts
            let mut vs = vs;
            if let (2.., true) = (vs.len(), is_elf(&vs[0])) {
                let n = vs[0].len().min(out.len());
                let same = (64.min(n)..n).find(|i| vs[0][*i] != out[*i]).unwrap_or(n);
                let short = vs.iter().map(|v| v.len()).min().unwrap_or(0);
                let counts = refimpl::elf_layout(&vs[0]).map(|l| {
                    l.secs.iter().filter(|s| s.ty != 8 && s.name != ".ksu_sign").map(|s| s.off.saturating_add(s.size)).max().unwrap_or(0)
                });
                let short = short.max(counts.unwrap_or(u64::MAX).min(1 << 40) as usize);
                for k in (same.saturating_sub(32).max(short)..same).rev() {
                    vs.push(Arc::new(vs[0][..k].to_vec()));
                }
            }
            for v in &vs {
                match check_signed(v, out, w) {
                    Ok(()) => {
                        err = None;
                        break;
                    }
                    Err(e) => err = err.or(Some(e)),
                }
            }
            match err {
                Some((p, e)) => {
                    let mut p = p.to_string();
                    if c.hard(a) || c.o.versions.contains_key(inp) {
                        p.push_str(",C07");
                    }
                    if cli && (c.hard(a) || c.o.versions.contains_key(inp)) {
                        p.push_str(",C06");
                    }
                    c.fail(a, &p, format!("reported success, but the output is wrong: {e}"));
                }
                None => remember(c, hist, a, inp, out, w),
            }
        }
    }
}

fn remember(c: &Ctx, hist: &mut Hist, a: usize, inp: &str, out: &[u8], w: &Want) {
    hist.pristine(out);
    let d = c.pre(inp).unwrap_or(&[]);
    let payload = if is_elf(d) { vec![] } else { refimpl::zip_digest(out, refimpl::ALG256).unwrap_or_default() };
    let idx = |k: Option<&Cred>| -> Option<u32> {
        k.and_then(|k| c.creds.iter().position(|x| std::ptr::eq(&**x, k))).map(|i| i as u32)
    };
    let _ = a;
    let mut v2 = idx(w.v2);
    if w.keep.is_some() {
        // the signature of whoever signed it before is still there
        v2 = match zip_class(out) {
            Zip::Signed(_, b) => b.v2.first().and_then(|x| x.first()).and_then(|s| {
                let leaf = s.certs.first()?;
                c.creds.iter().position(|x| &x.leaf == leaf && x.spki == s.key).map(|i| i as u32)
            }),
            _ => None,
        };
    }
    hist.signs.push(SignRec { v2, stamp: idx(w.stamp), payload, file: fp(out) });
}

#[allow(clippy::too_many_arguments)]
fn judge_digest(c: &mut Ctx, hist: &Hist, a: usize, inp: &str, alg: u32, sections: &[String], via: Via, got: Result<Vec<u8>, String>) {
    let benign = !c.hard(a) && !c.o.versions.contains_key(inp);
    let Some(d) = c.pre(inp) else {
        if got.is_ok() {
            c.fail(a, "C07,C01", "digest of a file that does not exist".into());
        }
        return;
    };
    if is_elf(d) {
        c.judged("C02");
        let pristine = hist.is_pristine(d);
        let vs = c.versions(inp);
        let refs: Vec<_> = vs.iter().map(|v| refimpl::elf_digest(v, &names(sections), alg)).collect();
        match got {
            Ok(g) => {
                if refs.iter().any(|r| r.as_ref() == Ok(&g)) {
                    return;
                }
                if !pristine {
                    // a damaged file: what its sections are is only clear while its table is sane
                    if !sane_elf(d) || refs.iter().any(|r| r.is_err()) {
                        return;
                    }
                }
                let p = if refs.iter().all(|r| r.is_err()) { "C02,C07" } else { "C02" };
                let p = if benign { p.to_string() } else { format!("{p},C07") };
                c.fail(a, &p, format!("digest {} but the sections' is {:?} ({via:?})", refimpl::short(&g), refs.iter().map(|r| r.as_ref().map(|x| refimpl::short(x))).collect::<Vec<_>>()));
            }
            Err(e) => {
                if benign && pristine && refs[0].is_ok() {
                    c.fail(a, "C02", format!("digest of existing sections fails: {e} ({via:?})"));
                }
            }
        }
        return;
    }
    c.judged("C01");
    if !sections.is_empty() && via != Via::Reader {
        if got.is_ok() {
            c.fail(a, "C02,C07", "sections were given for a module, the digest ignores them".into());
        }
        return;
    }
    let vs = c.versions(inp);
    let refs: Vec<_> = vs.iter().map(|v| refimpl::zip_digest(v, alg)).collect();
    match got {
        Ok(g) => {
            if refs.iter().any(|r| r.as_ref() == Some(&g)) {
                return;
            }
            let p = match zip_class(d) {
                Zip::No | Zip::Damaged(_) => "C07,C01",
                _ if !benign => "C01,C07",
                _ => "C01",
            };
            c.judged(p);
            c.fail(a, p, format!("digest {} but the module's is {:?} ({via:?}, {})", refimpl::short(&g), refs.iter().map(|r| r.as_ref().map(|x| refimpl::short(x))).collect::<Vec<_>>(), class_name(Some(d))));
        }
        Err(e) => {
            if benign && matches!(zip_class(d), Zip::Unsigned(_) | Zip::Signed(..)) {
                c.fail(a, "C01", format!("digest of a well-formed module fails: {e} ({via:?})"));
            }
        }
    }
}

fn dump_of(d: &[u8], sections: &[String]) -> Option<Vec<u8>> {
    if is_elf(d) {
        let mut out = vec![];
        for (_, o, s) in refimpl::elf_sections(d, &names(sections)).ok()? {
            out.extend(d.get(o as usize..o.checked_add(s)? as usize)?);
        }
        return Some(out);
    }
    let l = refimpl::zip_layout(d)?;
    let mut out = d[..l.content_end()?].to_vec();
    out.extend(&d[l.cd..]);
    Some(out)
}

fn judge_dump(c: &mut Ctx, hist: &Hist, a: usize, inp: &str, output: &str, sections: &[String], res: &Res) {
    c.judged("C13");
    let benign = !c.hard(a) && !c.o.versions.contains_key(inp);
    let vs = c.versions(inp);
    let Some(d) = c.pre(inp) else {
        if res.is_ok() {
            c.fail(a, "C13,C07", "dump of a file that does not exist".into());
        }
        return;
    };
    let elf = is_elf(d);
    if elf && !hist.is_pristine(d) {
        return;
    }
    let must_err = if elf {
        dump_of(d, sections).is_none()
    } else {
        !sections.is_empty() || matches!(zip_class(d), Zip::No | Zip::Damaged(_))
    } || !out_possible(c.o, output);
    match res {
        Ok(_) => {
            if must_err {
                if c.o.versions.contains_key(inp) {
                    return;
                }
                c.fail(a, "C13,C07", "dump reported success on a file without those regions".into());
                return;
            }
            if c.o.step.ops.iter().enumerate().any(|(i, op)| i != a && outputs(op).iter().any(|x| c.alias(x) == c.alias(output))) {
                return;
            }
            let got = c.post(output);
            if !vs.iter().any(|v| dump_of(v, sections).as_deref() == got) {
                let p = if benign { "C13" } else { "C13,C07" };
                let w = dump_of(d, sections).unwrap_or_default();
                c.fail(a, p, format!("dump reported success, content differs: {}", first_diff(got.unwrap_or(&[]), &w)));
            }
        }
        Err(e) => {
            if benign && !must_err && (elf || matches!(zip_class(d), Zip::Unsigned(_) | Zip::Signed(..))) {
                c.fail(a, "C13", format!("dump of a well-formed file fails: {e}"));
            }
        }
    }
}

fn judge_inspect(c: &mut Ctx, hist: &Hist, a: usize, inp: &str, res: &Res) {
    let benign = !c.hard(a) && !c.o.versions.contains_key(inp);
    let vs = c.versions(inp);
    let Some(d) = c.pre(inp) else {
        if res.is_ok() {
            c.fail(a, "C07", "block of a file that does not exist".into());
        }
        return;
    };
    c.judged("C07,C12");
    if is_elf(d) {
        if !hist.is_pristine(d) || vs.len() > 1 {
            // a damaged section must at least not be taken for absent while its header is intact
            if vs.len() == 1 {
                if let (Ok(Out::Block(None)), Some(b)) = (res, refimpl::elf_block(d)) {
                    if !b.is_empty() {
                        c.fail(a, "C07", "a signature section is there, the file is reported as unsigned".into());
                    }
                }
                let claimed = refimpl::elf_layout(d).and_then(|l| l.secs.iter().find(|s| s.name == ".ksu_sign").map(|s| s.size));
                if let (Ok(Out::Block(None)), Some(n), None) = (res, claimed, refimpl::elf_block(d)) {
                    if n > 0 {
                        c.fail(a, "C07", "a signature section lies outside the file, which is reported as unsigned".into());
                    }
                }
                if let (Ok(Out::Block(Some(b))), Some(x)) = (res, refimpl::elf_block(d)) {
                    if refimpl::parse_block(&x).is_ok() && b.bytes != x {
                        c.fail(a, "C12,C07", "signature section read back as other bytes".into());
                    }
                    if let Some(e) = refimpl::broken_inside(&x) {
                        c.fail(a, "C07", format!("damaged block ({e}) in a signature section is reported as intact"));
                    }
                }
            }
            return;
        }
        let want = refimpl::elf_block(d);
        match (res, &want) {
            (Ok(Out::Block(None)), None) => {}
            // a section of that name that is no signature
            (Ok(Out::Block(None)), Some(x)) if x.is_empty() => {}
            (Err(_), Some(x)) if refimpl::parse_block(x).is_err() => {}
            (Ok(Out::Block(Some(b))), Some(x)) if &b.bytes == x => {
                let at = refimpl::elf_layout(d).and_then(|l| l.secs.iter().find(|s| s.name == ".ksu_sign").map(|s| s.off as usize));
                if at.is_some_and(|at| b.start != at || b.end != at + x.len()) {
                    c.fail(a, "C12", format!("block reported at {}..{}, it is at {at:?}", b.start, b.end));
                }
            }
            (Ok(r), _) => {
                let got = matches!(r, Out::Block(Some(_)));
                let p = if got { "C12,C03" } else { "C07,C12,C03" };
                c.fail(a, p, format!("signature section reported {got}, file has one: {}", want.is_some()));
            }
            (Err(e), _) => {
                if benign {
                    c.fail(a, "C12,C03", format!("signature section of an intact file is not readable: {e}"));
                }
            }
        }
        return;
    }
    if vs.len() > 1 {
        return;
    }
    match (zip_class(d), res) {
        (Zip::No, Ok(_)) => c.fail(a, "C07", "not a module, yet it has a signature state".into()),
        (Zip::No, Err(_)) => {}
        (Zip::Damaged(why), Ok(r)) => {
            c.fail(a, "C07", format!("damaged block ({why}) is reported as {}", if matches!(r, Out::Block(None)) { "unsigned" } else { "intact" }))
        }
        (Zip::Damaged(_), Err(_)) => {}
        (Zip::Unsigned(_), Ok(Out::Block(None))) => {}
        (Zip::Unsigned(_), Ok(_)) => c.fail(a, "C07,C12", "an unsigned module is reported as signed".into()),
        (Zip::Unsigned(_), Err(e)) => {
            if benign {
                c.fail(a, "C07,C12", format!("reading an unsigned module fails: {e}"));
            }
        }
        (Zip::Signed(l, _), Ok(Out::Block(Some(b)))) => {
            let start = l.content_end().unwrap_or(0);
            if b.bytes != d[start..l.cd] {
                c.fail(a, "C12", format!("block reads back as other bytes: {}", first_diff(&b.bytes, &d[start..l.cd])));
            } else if b.start != start || b.end != l.cd {
                c.fail(a, "C12,C01", format!("block reported at {}..{}, it is at {start}..{}", b.start, b.end, l.cd));
            }
        }
        (Zip::Signed(..), Ok(_)) => c.fail(a, "C07,C12", "a signed module is reported as unsigned".into()),
        (Zip::Signed(..), Err(e)) => {
            if benign {
                c.fail(a, "C12", format!("an intact block is not readable: {e}"));
            }
        }
        (Zip::Odd(_), Ok(Out::Block(None))) => c.fail(a, "C07", "a framed block with odd content is reported as unsigned".into()),
        (Zip::Odd(_), _) => {}
    }
}

fn judge_object(c: &mut Ctx, _hist: &Hist, a: usize, inp: &str, raw: bool, script: &[ObjOp], res: &Res) {
    let Some(d) = c.pre(inp) else { return };
    if is_elf(d) || c.unstable(a, inp) {
        return;
    }
    let class = zip_class(d);
    let benign = !c.hard(a);
    c.judged("C14");
    let v = match res {
        Ok(Out::Obj(v)) => v,
        _ => {
            if benign && matches!(class, Zip::Unsigned(_) | Zip::Signed(..)) {
                c.fail(a, "C14", "a well-formed module cannot be opened".into());
            }
            return;
        }
    };
    let (l, blk): (&ZipLayout, Option<&[u8]>) = match &class {
        Zip::Unsigned(l) => (l, None),
        Zip::Signed(l, _) => (l, Some(&d[l.content_end().unwrap_or(0)..l.cd])),
        Zip::Odd(_) => return,
        Zip::No | Zip::Damaged(_) => {
            for (o, r) in script.iter().zip(v) {
                if r.is_ok() && matches!(o, ObjOp::Digest { .. } | ObjOp::Block | ObjOp::Raw | ObjOp::Sign { .. } | ObjOp::Offsets | ObjOp::Regions) && !raw {
                    c.fail(a, "C14,C07", format!("{o:?} succeeds on a damaged module"));
                }
            }
            return;
        }
    };
    if raw && blk.is_some() {
        return;
    }
    let mut cur: Option<u32> = None;
    let strip = refimpl::zip_strip(d).unwrap_or_default();
    let writes = |to: &str| script.iter().filter(|o| matches!(o, ObjOp::Write { to: t } | ObjOp::TraitWrite { to: t } if t == to)).count();
    for (k, (o, r)) in script.iter().zip(v).enumerate() {
        let at = format!("step {k} {o:?} (raw {raw}, signed on disk {}, signed since {cur:?})", blk.is_some());
        let want_of = |i: u32, creds: &'_ [Arc<Cred>]| -> *const Cred { &*creds[i as usize] };
        let _ = want_of;
        match o {
            ObjOp::Digest { alg512 } => {
                let alg = if *alg512 { refimpl::ALG512 } else { refimpl::ALG256 };
                let w = refimpl::zip_digest(d, alg);
                match r {
                    Ok(Out::Bytes(b)) if Some(b) == w.as_ref() => {}
                    Ok(_) => c.fail(a, "C14,C01", format!("{at}: wrong digest")),
                    Err(e) if benign => c.fail(a, "C14,C01", format!("{at}: {e}")),
                    Err(_) => {}
                }
            }
            ObjOp::Block => match (cur, r) {
                (Some(i), Ok(Out::Block(Some(b)))) => {
                    if let Err(e) = check_mem_block(c.cred(i), d, b) {
                        c.fail(a, "C14,C03", format!("{at}: {e}"));
                    }
                    // where it will stand when the module is written
                    let end = l.content_end().unwrap_or(0);
                    if b.start != end || b.end != end + b.bytes.len() {
                        c.fail(a, "C14,C12", format!("{at}: block of {} bytes at {}..{}, it belongs at {end}", b.bytes.len(), b.start, b.end));
                    }
                }
                (None, Ok(Out::Block(Some(b)))) => match blk {
                    Some(x) => {
                        if b.bytes != x || b.start != l.content_end().unwrap_or(0) || b.end != l.cd {
                            c.fail(a, "C14,C12", format!("{at}: other block than in the file"));
                        }
                    }
                    None => c.fail(a, "C14,C07", format!("{at}: a block in an unsigned module")),
                },
                (_, Ok(_)) => {}
                (Some(_), Err(e)) if benign => c.fail(a, "C14", format!("{at}: {e}")),
                (None, Err(e)) if benign && blk.is_some() => c.fail(a, "C14,C12", format!("{at}: {e}")),
                _ => {}
            },
            ObjOp::Offsets | ObjOp::Regions => {
                if cur.is_some() {
                    continue;
                }
                let end = l.content_end().unwrap_or(0);
                match r {
                    Ok(Out::Offsets(x)) => {
                        if *x != [0, end, l.cd, l.eocd, l.eocd, l.len] {
                            c.fail(a, "C14,C01", format!("{at}: {x:?}, expected end {end} cd {} eocd {} len {}", l.cd, l.eocd, l.len));
                        }
                    }
                    Ok(Out::Regions(x)) => {
                        let got: Vec<_> = x.iter().map(|x| (x.1, x.2)).collect();
                        let w = vec![(0, end as u64), (l.cd as u64, (l.eocd - l.cd) as u64), (l.eocd as u64, (l.len - l.eocd) as u64)];
                        if got != w {
                            c.fail(a, "C14,C01,C13", format!("{at}: {got:?}, expected {w:?}"));
                        }
                    }
                    Err(e) if benign => c.fail(a, "C14", format!("{at}: {e}")),
                    _ => {}
                }
            }
            ObjOp::Raw => match r {
                Ok(Out::Bytes(b)) => {
                    if b != &strip {
                        c.fail(a, "C14,C04", format!("{at}: unsigned form differs: {}", first_diff(b, &strip)));
                    }
                }
                Err(e) if benign && (raw || blk.is_some()) => c.fail(a, "C14,C04", format!("{at}: {e}")),
                _ => {}
            },
            ObjOp::Sign { cred } => match r {
                Ok(_) => cur = Some(*cred),
                Err(e) if benign => c.fail(a, "C14,C03", format!("{at}: {e}")),
                Err(_) => {}
            },
            ObjOp::Write { to } | ObjOp::TraitWrite { to } => {
                if writes(to) > 1 {
                    continue;
                }
                let got = c.post(to);
                match (r, cur) {
                    (Ok(_), Some(i)) => {
                        let w = Want {
                            v2: Some(c.cred(i)),
                            chain: false,
                            stamp: None,
                            timestamp: false,
                            padded: false,
                            bare: false,
                            sections: vec![],
                            times: vec![],
                            keep: None,
                        };
                        match got {
                            None => c.fail(a, "C14,C07", format!("{at}: success, no file")),
                            Some(g) => {
                                if let Err((p, e)) = check_signed(d, g, &w) {
                                    c.fail(a, &format!("C14,{p}"), format!("{at}: {e}"));
                                }
                            }
                        }
                    }
                    (Ok(_), None) => {
                        if blk.is_some() && got != Some(d) {
                            c.fail(a, "C14,C04", format!("{at}: rewriting a signed module changes it: {}", first_diff(got.unwrap_or(&[]), d)));
                        }
                        if blk.is_none() && got.is_some_and(|g| g != d) {
                            c.fail(a, "C14,C07", format!("{at}: writing an unsigned module produced something else"));
                        }
                    }
                    (Err(e), s) if benign && (s.is_some() || blk.is_some()) => c.fail(a, "C14,C04", format!("{at}: {e}")),
                    _ => {}
                }
            }
            ObjOp::IsSigned => {
                if cur.is_none() && benign && *r != Ok(Out::Bool(blk.is_some())) {
                    c.fail(a, "C14,C07", format!("{at}: {r:?}"));
                }
            }
        }
    }
}

/// A block made in memory for the module `d`
fn check_mem_block(k: &Cred, d: &[u8], b: &Blk) -> Result<(), String> {
    let r = refimpl::parse_block(&b.bytes)?;
    if r.v2.len() != 1 || r.v2[0].len() != 1 {
        return Err("not one signer".into());
    }
    let s = &r.v2[0][0];
    check_signer(s, k, false, true, "signature").map_err(|e| e.1)?;
    check_digests(s, d, false, &[], k.alg, "signature").map_err(|e| e.1)
}

fn judge_verify(c: &mut Ctx, hist: &Hist, a: usize, op: &Op, res: &Res) {
    let Op::Verify { input: i, root, via } = op else { return };
    let Some(d) = c.pre(i) else {
        if matches!(res, Ok(Out::Verify { valid: true, .. })) {
            c.fail(a, "C09,C07", "verified a file that does not exist".into());
        }
        return;
    };
    if c.unstable(a, i) || c.o.versions.contains_key(i.as_str()) {
        return;
    }
    let valid = matches!(res, Ok(Out::Verify { valid: true, .. }));
    let given: Vec<&Cred> = match root {
        Root::Of(r) => vec![c.cred(*r)],
        Root::Both(r, s) => vec![c.cred(*r), c.cred(*s)],
        Root::Builtin | Root::Empty => vec![],
    };
    let root_certs: Vec<&[u8]> = given.iter().map(|k| k.root.as_slice()).collect();
    let mut times: Vec<i64> = c.times(a);
    if times.is_empty() {
        times.push(c.o.clock_before.div_euclid(1_000_000_000) as i64);
        times.push(c.o.clock_after.div_euclid(1_000_000_000) as i64);
    }
    // a clock before 1970 counts as the epoch
    let times: Vec<i64> = times.into_iter().map(|t| t.max(0)).collect();
    let trusted = |k: u32, sp: &Scenario, times: &[i64], all: bool| -> bool {
        let s = &sp.creds[k as usize];
        let cr = &c.creds[k as usize];
        if !given.iter().any(|g| g.anchor == cr.anchor) {
            return false;
        }
        // the same key and name under another certificate: trusted, or not, as the checks go
        if all && !root_certs.contains(&cr.root.as_slice()) {
            return false;
        }
        // how the certificates may be ordered is for the verifier to decide
        if all && s.order != 0 {
            return false;
        }
        if cr.leaf == cr.root {
            return true;
        }
        let inside = |t: &i64| *t >= s.not_before && *t <= s.not_after;
        let time_ok = if all { times.iter().all(|t| inside(t)) } else { times.iter().any(inside) };
        // the same authorities may have better certificates in other chains
        let up = |x: &crate::creds::CredSpec| (x.under.unwrap_or(x.seed), x.chain.len());
        let ca = s.ca_flag || !all && sp.creds.iter().any(|x| x.ca_flag && up(x) == up(s));
        s.code_signing && (ca || s.chain.len() <= 1) && time_ok
    };
    c.judged("C09,C10");
    let pay = if is_elf(d) { None } else { refimpl::zip_digest(d, refimpl::ALG256) };
    if !is_elf(d) {
        if let Zip::Signed(_, b) = zip_class(d) {
            let known: Vec<&CertInfo> = c.creds.iter().flat_map(|k| k.infos.iter()).collect();
            let v2: Vec<&RefSigner> = b.v2.iter().flatten().collect();
            if let Err(e) = verdicts(d, res, &v2, b.stamps.first(), &known, &root_certs, &times) {
                c.fail(a, "C09", format!("{e} ({via:?}, {root:?}, clock {times:?})"));
                return;
            }
        }
    }
    if valid {
        if let Zip::Damaged(e) = zip_class(d) {
            c.fail(a, "C09,C07", format!("accepted ({via:?}) with a damaged signing block: {e}"));
            return;
        }
        let f = fp(d);
        let ok = pay.as_ref().is_some_and(|p| {
            hist.unknown
                || hist.signs.iter().any(|s| {
                    // a stamp alone is enough for the library, by its documentation; whether what is
                    // in the file is valid has been judged already
                    let who = if *via == Via::Direct { [s.v2, s.stamp] } else { [s.v2.or(s.stamp), None] };
                    &s.payload == p && who.into_iter().flatten().any(|k| trusted(k, c.sc, &times, false))
                })
        });
        // a file just as it was written: every signature in it counts
        if let Some(s) = hist.signs.iter().rev().find(|s| s.file == f) {
            for (k, who) in [(s.v2, "signature"), (s.stamp, "source stamp")] {
                if k.is_some_and(|k| !trusted(k, c.sc, &times, false)) {
                    c.fail(a, "C09", format!("accepted ({via:?}) although {root:?} does not trust its {who} (clock {times:?})"));
                    return;
                }
            }
        }
        if !ok {
            c.fail(a, "C09", format!("accepted ({via:?}): nobody trusted by {root:?} ever signed this payload (clock {times:?})"));
        }
        return;
    }
    // completeness: exactly what a successful signing wrote
    if c.hard(a) || is_elf(d) {
        return;
    }
    let f = fp(d);
    let Some(s) = hist.signs.iter().rev().find(|s| s.file == f) else { return };
    // what stands in the file is right, whoever may be trusted
    if let Ok(Out::Verify { v2, stamp, why, .. }) = res {
        let right = |c: &Option<Claims>| c.as_ref().is_some_and(|c| c.all[0] && c.all[1]);
        if *via == Via::Direct && (s.v2.is_some() && !right(v2) || s.stamp.is_some() && !right(stamp)) {
            c.fail(a, "C10", format!("a module just signed: signature and digest are not called valid under {root:?}: {why}"));
            return;
        }
    }
    let Some(k) = s.v2 else { return };
    let direct = |t: u32| c.creds[t as usize].anchor == c.creds[k as usize].anchor && c.sc.creds[t as usize].chain.len() <= 1;
    if trusted(k, c.sc, &times, true)
        && s.stamp.is_none_or(|t| direct(t) && trusted(t, c.sc, &times, true))
    {
        let e = match res {
            Err(e) => e.clone(),
            Ok(Out::Verify { why, .. }) => why.clone(),
            _ => "not valid".into(),
        };
        c.fail(a, "C10", format!("a module just signed under {root:?} is refused ({via:?}): {e} (clock {times:?})"));
    }
}

/// May this certificate be trusted with these others around?
fn may_trust(leaf: &[u8], around: &[Vec<u8>], known: &[&CertInfo], root: &[u8], times: &[i64]) -> bool {
    if leaf == root {
        return true;
    }
    let inside = |i: &CertInfo| times.iter().any(|t| *t >= i.not_before && *t <= i.not_after);
    let Some(l) = known.iter().find(|i| i.der == leaf) else { return false };
    let Some(r) = known.iter().find(|i| i.der == root) else { return false };
    if !l.code_signing || !inside(l) {
        return false;
    }
    let mut open = vec![*l];
    let mut seen: Vec<&[u8]> = vec![];
    while let Some(x) = open.pop() {
        if x.issuer == r.subject && x.issuer_spki == r.spki {
            return true;
        }
        for c in around {
            if seen.contains(&c.as_slice()) {
                continue;
            }
            if let Some(i) = known.iter().find(|i| i.der == *c) {
                if i.ca && inside(i) && i.subject == x.issuer && i.spki == x.issuer_spki {
                    seen.push(c);
                    open.push(i);
                }
            }
        }
    }
    false
}

/// What the info command shows, compared with what is in the file
fn judge_info(c: &mut Ctx, hist: &Hist, a: usize, inp: &str, res: &Res) {
    let benign = !c.hard(a) && !c.o.versions.contains_key(inp);
    c.judged("C18");
    let Some(d) = c.pre(inp) else {
        if res.is_ok() {
            c.fail(a, "C18,C07", "showed a file that does not exist".into());
        }
        return;
    };
    if c.o.versions.contains_key(inp) {
        return;
    }
    // what is there, and where
    let (at, bytes, block) = if is_elf(d) {
        if !hist.is_pristine(d) {
            return;
        }
        let Some(x) = refimpl::elf_block(d) else {
            if res.is_ok() {
                c.fail(a, "C18,C07", "shows a signing block of an unsigned ELF file".into());
            }
            return;
        };
        let at = refimpl::elf_layout(d).and_then(|l| l.secs.iter().find(|s| s.name == ".ksu_sign").map(|s| s.off as usize));
        let Ok(b) = refimpl::parse_block(&x) else { return };
        (at.unwrap_or(0), x, b)
    } else {
        match zip_class(d) {
            Zip::No | Zip::Unsigned(_) | Zip::Damaged(_) => {
                if res.is_ok() {
                    c.fail(a, "C18,C07", format!("shows a signing block, the file is {}", class_name(Some(d))));
                }
                return;
            }
            Zip::Odd(_) => return,
            Zip::Signed(l, b) => {
                let at = l.content_end().unwrap_or(0);
                (at, d[at..l.cd].to_vec(), b)
            }
        }
    };
    if let Err(e) = res {
        if benign {
            c.fail(a, "C18", format!("an intact signing block is not shown: {e}"));
        }
        return;
    }
    let text = String::from_utf8_lossy(c.o.out.get(&(a as u32)).map(|v| v.as_slice()).unwrap_or(&[])).to_string();
    let known: Vec<&CertInfo> = c.creds.iter().flat_map(|k| k.infos.iter()).collect();
    if let Err(e) = shown(&text, d.len(), at, &bytes, &block, &known) {
        c.fail(a, "C18", e);
    }
}
/// Does a printed description name the certificate it is printed for?
fn described(line: &str, i: &CertInfo) -> bool {
    let part = |name: &str| line.split(" | ").find_map(|p| p.split_once(name).map(|x| x.1));
    let named = |p: Option<&str>, n: &str| {
        let list = format!("{:?}", n.as_bytes());
        p.is_some_and(|p| p.contains(n) || p.contains(&list))
    };
    let dated = |p: Option<&str>, t: i64| p.is_some_and(|p| p.contains(&crate::creds::year(t).to_string()));
    named(part("subject="), &i.subject) && named(part("issuer="), &i.issuer) && dated(part("not_before="), i.not_before) && dated(part("not_after="), i.not_after)
}
fn shown(text: &str, len: usize, at: usize, bytes: &[u8], b: &refimpl::RefBlock, known: &[&CertInfo]) -> Result<(), String> {
    let field = |part: &[&str], name: &str| -> Option<String> {
        part.iter().find_map(|l| l.trim().strip_prefix(name).map(|x| x.trim().to_string()))
    };
    let lines: Vec<&str> = text.lines().collect();
    let cut = |title: &str| -> Option<Vec<&str>> {
        let i = lines.iter().position(|l| l.starts_with(title))?;
        Some(lines[i + 1..].iter().copied().take_while(|l| !l.trim().is_empty()).collect())
    };
    let want = format!("{len} bytes");
    if field(&lines, "File size:").as_deref() != Some(&want) {
        return Err(format!("file size shown is not {want}"));
    }
    let want = format!("{at} - {}", at + bytes.len());
    let got = field(&lines, "Location:").unwrap_or_default();
    if got != want {
        return Err(format!("block shown at {got}, the one that counts is at {want}"));
    }
    let want = format!("{} bytes", bytes.len());
    let got = field(&lines, "Size:").unwrap_or_default();
    if got != want {
        return Err(format!("block size shown is {got}, it has {want}"));
    }
    // the parts, in order
    let mut elf = b.elf.iter();
    let want: Vec<String> = b
        .pairs
        .iter()
        .map(|p| match p.0 {
            refimpl::V2_ID => "V2 Signature Scheme".into(),
            refimpl::STAMP_ID => "Source Stamp".into(),
            refimpl::ELF_ID => format!("ELF Section Info ({} section(s))", elf.next().map_or(0, |e| e.len())),
            id => format!("Unknown Block (ID: 0x{id:x})"),
        })
        .collect();
    let got: Vec<String> = cut("Signing block contents:")
        .unwrap_or_default()
        .iter()
        .map(|l| l.trim_start_matches(|c: char| !c.is_ascii_alphanumeric()).trim().to_string())
        .collect();
    if got != want {
        return Err(format!("parts shown {got:?}, the block has {want:?}"));
    }
    let v2: Vec<&RefSigner> = b.v2.iter().flatten().collect();
    for (title, signers) in [("V2 Certificate details:", v2), ("Source Stamp certificate details:", b.stamps.first().into_iter().collect())] {
        let good = !signers.is_empty() && signers.iter().all(|s| refimpl::verify_signer(s).is_ok());
        let of = |c: &Vec<u8>| known.iter().find(|i| i.der == *c);
        let Some(part) = cut(title) else {
            if let [s] = signers[..] {
                if good && s.certs.first().and_then(of).is_some_and(|i| i.spki == s.key) && b.stamps.len() < 2 && b.v2.len() < 2 {
                    return Err(format!("{title} nothing is shown of a valid signer"));
                }
            }
            continue;
        };
        if field(&part, "Signature valid:").as_deref() == Some("true") && !good {
            return Err(format!("{title} calls a signature valid that is not"));
        }
        if field(&part, "Content integrity verified:").as_deref() == Some("true") {
            return Err(format!("{title} claims an integrity that nobody checked"));
        }
        if field(&part, "Trusted:").as_deref() == Some("true") {
            return Err(format!("{title} calls an unknown signer trusted"));
        }
        let [s] = signers[..] else { continue };
        let leaf = field(&part, "Leaf certificate:").or_else(|| field(&part, "Stamp certificate:"));
        let n = s.certs.first().map_or(0, |x| x.len());
        if let Some(i) = s.certs.first().and_then(of).filter(|i| i.spki == s.key && good) {
            match &leaf {
                None => return Err(format!("{title} does not show the certificate")),
                Some(l) if !described(l, i) => return Err(format!("{title} the description is not that of the certificate: {l}")),
                _ => {}
            }
        }
        if leaf.as_ref().is_some_and(|l| !l.starts_with(&format!("{n} bytes;"))) {
            return Err(format!("{title} shows another certificate"));
        }
        let chain = part.iter().filter(|l| l.trim().starts_with("Chain[")).count();
        if title.starts_with("V2") && chain != s.certs.len().saturating_sub(1) {
            return Err(format!("{title} shows {chain} certificates after the first, the signer has {}", s.certs.len().saturating_sub(1)));
        }
        for (i, x) in s.certs.iter().skip(1).enumerate().filter(|_| title.starts_with("V2")) {
            if !part.iter().any(|l| l.trim().starts_with(&format!("Chain[{i}]: {} bytes;", x.len()))) {
                return Err(format!("{title} shows another certificate {i} of the chain"));
            }
            let mut lines = part.iter().filter(|l| l.trim().starts_with(&format!("Chain[{i}]:")));
            if of(x).is_some_and(|k| !lines.any(|l| described(l, k))) {
                return Err(format!("{title} describes another certificate {i} of the chain"));
            }
        }
    }
    Ok(())
}

/// What verification claims, compared with what the bytes of the file say
fn verdicts(
    d: &[u8],
    res: &Res,
    v2: &[&RefSigner],
    stamp: Option<&RefSigner>,
    known: &[&CertInfo],
    roots: &[&[u8]],
    times: &[i64],
) -> Result<(), String> {
    let Ok(Out::Verify { valid, v2: c2, stamp: cs, .. }) = res else { return Ok(()) };
    // every signature of the signer that names a digest names the one of this file
    let content = |s: &RefSigner, all: bool| {
        let mut some = false;
        for (a, _) in &s.sigs {
            let mut of = s.digests.iter().filter(|x| x.0 == *a).peekable();
            if of.peek().is_none() {
                if all {
                    return false;
                }
                continue;
            }
            let Some(want) = refimpl::zip_digest(d, *a) else { return false };
            if !of.any(|x| x.1 == want) {
                return false;
            }
            some = true;
        }
        some
    };
    let trust = |s: &RefSigner| {
        let Some(leaf) = s.certs.first() else { return false };
        roots.iter().any(|r| may_trust(leaf, &s.certs[1..], known, r, times))
    };
    // each certificate names the next one as its issuer; a stamp is looked at without others
    let linked = |s: &RefSigner, alone: bool| {
        let of = |c: &Vec<u8>| known.iter().find(|i| i.der == *c);
        !s.certs.is_empty() && (alone || s.certs.windows(2).all(|w| of(&w[0]).zip(of(&w[1])).is_none_or(|(x, y)| x.issuer == y.subject)))
    };
    // without a certificate there is nothing to be bound to, and no trust either
    let bound = |s: &RefSigner| s.certs.first().is_none_or(|l| known.iter().any(|i| i.der == *l && i.spki == s.key) || !known.iter().any(|i| i.der == *l) && l.windows(s.key.len()).any(|w| !w.is_empty() && w == s.key));
    let check = |s: &RefSigner, who: &str, f: [bool; 4]| -> Result<(), String> {
        let stamp = who != "signer";
        if f[0] {
            refimpl::verify_signer(s).map_err(|e| format!("a {who} is called valid whose signature is not: {e}"))?;
            if !bound(s) {
                return Err(format!("a {who} is called valid whose key is not that of its certificate"));
            }
        }
        if f[1] && !content(s, !stamp) {
            return Err(format!("the digest of a {who} is called valid and is not that of the file"));
        }
        if f[2] && !linked(s, stamp) && !trust(s) {
            return Err(format!("the certificates of a {who} are called a chain and do not follow each other"));
        }
        if f[3] && !trust(s) {
            return Err(format!("a {who} is called trusted without a valid path to the root"));
        }
        Ok(())
    };
    for s in v2.iter().filter(|_| *valid) {
        check(s, "signer", [true; 4]).map_err(|e| format!("accepted: {e}"))?;
    }
    for s in stamp.iter().filter(|_| *valid) {
        check(s, "source stamp", [true; 4]).map_err(|e| format!("accepted: {e}"))?;
    }
    if *valid && v2.is_empty() && stamp.is_none() {
        return Err("accepted without any signer".into());
    }
    if let Some(c) = c2 {
        if c.signers.len() != v2.len() && c.all == [true; 4] {
            return Err(format!("{} of {} signers verified", c.signers.len(), v2.len()));
        }
        for (s, f) in v2.iter().zip(&c.signers).filter(|_| c.signers.len() == v2.len()) {
            check(s, "signer", f.flags)?;
        }
        for s in v2 {
            check(s, "signer", c.all)?;
        }
    }
    if let (Some(c), Some(s)) = (cs, stamp) {
        check(s, "source stamp", c.all)?;
    }
    if cs.as_ref().is_some_and(|c| c.all == [true; 4]) && stamp.is_none() {
        return Err("a source stamp is called valid and there is none".into());
    }
    Ok(())
}

/// Output files are replaced whole or not at all.
fn atomicity(c: &mut Ctx, hist: &mut Hist) {
    let o = c.o;
    let mut groups: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (a, op) in o.step.ops.iter().enumerate() {
        if matches!(op, Op::Sign { .. } | Op::Dump { .. }) {
            for p in outputs(op) {
                groups.entry(c.alias(&p)).or_default().push(a);
            }
        }
    }
    for (target, who) in groups {
        // any non-atomic writer on the same file makes it unjudgeable
        if o.step.ops.iter().any(|op| {
            !matches!(op, Op::Sign { .. } | Op::Dump { .. }) && outputs(op).iter().any(|p| c.alias(p) == target)
        }) {
            continue;
        }
        if who.iter().any(|a| {
            input(&o.step.ops[*a]).and_then(|i| c.pre(i)).is_some_and(|d| is_elf(d) && !hist.is_pristine(d) && !sane_elf(d))
        }) {
            continue;
        }
        let a0 = who[0];
        let path = outputs(&o.step.ops[a0])[0].clone();
        if !out_possible(o, &path) {
            continue;
        }
        let pre = o.pre.get(&path).cloned().flatten();
        if pre.is_none() && who.iter().any(|a| outputs(&o.step.ops[*a]).iter().any(|p| *p != target)) {
            continue; // through a dangling link: creating its target is all that can be asked for
        }
        // contents that may be seen
        let mut cache: Vec<(Arc<Vec<u8>>, Result<(), String>)> = vec![];
        let mut accept = |c: &Ctx, d: &Arc<Vec<u8>>| -> Result<(), String> {
            if let Some(x) = cache.iter().find(|x| Arc::ptr_eq(&x.0, d)) {
                return x.1.clone();
            }
            let mut why = Err("nobody writes this".to_string());
            if pre.as_ref().is_some_and(|p| **p == **d) {
                why = Ok(());
            } else {
                for a in &who {
                    let op = &o.step.ops[*a];
                    let inp = input(op).unwrap_or("");
                    let vs = c.versions(inp);
                    let changed = vs.len() > 1;
                    for v in &vs {
                        let r = match op {
                            Op::Sign { .. } => match c.want(*a, op) {
                                Some(w) => check_signed(v, d, &w).map_err(|e| e.1).or_else(|e| {
                                    // the input changed under way: a whole file is all one can ask
                                    let b = if is_elf(d) { refimpl::elf_block(d) } else { refimpl::zip_block(d).map(|b| b.to_vec()) };
                                    let whole = b.is_some_and(|b| refimpl::parse_block(&b).is_ok_and(|b| !b.v2.is_empty()));
                                    if changed && whole {
                                        Ok(())
                                    } else {
                                        Err(e)
                                    }
                                }),
                                None => Err("?".into()),
                            },
                            Op::Dump { sections, .. } => {
                                if dump_of(v, sections).as_deref() == Some(d.as_slice()) {
                                    Ok(())
                                } else {
                                    Err("not the dump".into())
                                }
                            }
                            _ => Err("?".into()),
                        };
                        if r.is_ok() {
                            why = r;
                            break;
                        } else if why.as_ref().is_err_and(|w| w == "nobody writes this") {
                            why = r;
                        }
                    }
                    if why.is_ok() {
                        break;
                    }
                }
            }
            cache.push((d.clone(), why.clone()));
            why
        };
        let dumps = who.iter().any(|a| matches!(o.step.ops[*a], Op::Dump { .. }));
        let props = if dumps { "C06,C13" } else { "C06" };
        c.judged(props);
        let mut reported = false;
        for (at, by, p, d) in &o.seen {
            if c.alias(p) != target || reported {
                continue;
            }
            match d {
                None => {
                    if pre.is_some() {
                        c.fail(a0, props, format!("at system call {at} the output had disappeared (actor {by})"));
                        reported = true;
                    }
                }
                Some(d) => {
                    if let Err(e) = accept(c, d) {
                        c.fail(a0, props, format!("at system call {at} the output was half written ({} bytes): {e}", d.len()));
                        reported = true;
                    }
                }
            }
        }
        for (b, op) in o.step.ops.iter().enumerate() {
            if let (Op::Observe { path: p, .. }, Done::Res(Ok(Out::Contents(v)))) = (op, &o.done[b]) {
                if c.alias(p) != target {
                    continue;
                }
                for x in v {
                    match x {
                        Ok(None) if pre.is_some() => {
                            c.fail(b, "C06", "a reader finds the output missing".into());
                            break;
                        }
                        Ok(Some(d)) => {
                            if let Err(e) = accept(c, &Arc::new(d.clone())) {
                                c.fail(b, "C06", format!("a reader sees a half-written output: {e}"));
                                break;
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        let post = o.post.get(&path).cloned().flatten();
        let oks: Vec<usize> = who.iter().copied().filter(|a| matches!(o.done[*a], Done::Res(Ok(_)))).collect();
        let dead = who.iter().any(|a| matches!(o.done[*a], Done::Dead | Done::Panic(_)));
        let how = if o.powered_off {
            "after power loss"
        } else if dead {
            "after the process died"
        } else {
            "afterwards"
        };
        match &post {
            None => {
                if pre.is_some() {
                    c.fail(a0, props, format!("{how} the output that existed before is gone"));
                } else if !oks.is_empty() && !reported {
                    c.fail(a0, "C06,C07", "success reported, no output file".into());
                }
            }
            Some(d) => {
                let same = pre.as_ref().is_some_and(|p| **p == **d);
                if oks.is_empty() && !dead {
                    if !same {
                        let p = if c.hard(a0) { format!("{props},C07") } else { props.to_string() };
                        c.fail(a0, &p, format!("the command failed, yet the output changed from {} to {} bytes", pre.as_ref().map_or("no".into(), |p| p.len().to_string()), d.len()));
                    }
                } else if let Err(e) = accept(c, d) {
                    if who.len() > 1 || dead {
                        c.fail(a0, props, format!("{how} the output is neither the old nor a complete new file: {e}"));
                    }
                } else if same && who.len() > 1 && !oks.is_empty() && !dead {
                    // two writers: the winner's file must be there unless it equals the old one
                    let redo = oks.iter().all(|a| {
                        let op = &o.step.ops[*a];
                        match (op, c.want(*a, op)) {
                            (Op::Sign { .. }, Some(w)) => check_signed(&c.versions(input(op).unwrap_or("")).first().cloned().unwrap_or_default(), d, &w).is_err(),
                            _ => false,
                        }
                    });
                    if redo {
                        c.fail(a0, "C06,C15", "success reported, but the output is still the old file".into());
                    }
                }
                if (who.len() > 1 || dead) && !same {
                    for a in &who {
                        let op = &o.step.ops[*a];
                        if let (Op::Sign { input: i, .. }, Some(w)) = (op, c.want(*a, op)) {
                            let ok = c.pre(i).is_some_and(|v| check_signed(v, d, &w).is_ok());
                            if ok {
                                remember(c, hist, *a, i, d, &w);
                            }
                        }
                    }
                }
            }
        }
        // permissions of an existing output stay
        if let (Some(x), Some(y)) = (o.modes.0.get(&path), o.modes.1.get(&path)) {
            if x != y && !o.powered_off {
                c.fail(a0, "C06", format!("permissions of the output changed from {x:o} to {y:o}"));
            }
        }
    }
}

/// Files nobody was asked to write stay as they were.
fn bystanders(c: &mut Ctx) {
    let o = c.o;
    let mut touched: HashSet<String> = HashSet::new();
    for op in &o.step.ops {
        for p in outputs(op) {
            touched.insert(c.alias(&p));
        }
    }
    for f in o.versions.keys() {
        touched.insert(f.clone());
    }
    for (p, d) in &o.pre {
        if touched.contains(&c.alias(p)) {
            continue;
        }
        let now = o.post.get(p).cloned().flatten();
        if &now != d {
            let is_input = o.step.ops.iter().any(|op| input(op) == Some(p));
            c.fail(
                0,
                "C06",
                format!(
                    "{} {p} {} although nobody was asked to write it",
                    if is_input { "the input" } else { "another file" },
                    if now.is_some() { "changed" } else { "disappeared" }
                ),
            );
        }
    }
    // whoever comes to an end cleans up, if it is let
    let ended = o.done.iter().all(|d| matches!(d, Done::Res(_))) && !o.powered_off;
    if ended && !o.step.faults.iter().any(|f| f.call == Call::Unlink) {
        for p in o.post.keys() {
            if !o.pre.contains_key(p) && !touched.contains(&c.alias(p)) && !touched.contains(p) {
                c.fail(0, "C06", format!("{p} is left behind"));
            }
        }
    }
}
fn exits(c: &mut Ctx) {
    let o = c.o;
    for (a, op) in o.step.ops.iter().enumerate() {
        let Some(code) = o.exit[a] else { continue };
        c.judged("C07");
        let ok = matches!(&o.done[a], Done::Res(Ok(_)));
        let err = o.err.get(&(a as u32)).map(|v| v.len()).unwrap_or(0);
        if !ok && err == 0 && code != 0 {
            c.fail(a, "C07", format!("exit status {code} without a word on standard error"));
        }
        let _ = op;
    }
}

// ---------------------------------------------------------------- what the environment does

fn lp(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend(b);
    v
}
fn enc_list(items: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![];
    for (a, d) in items {
        let mut e = a.to_le_bytes().to_vec();
        e.extend(lp(d));
        v.extend(lp(&e));
    }
    v
}
pub fn enc_signed(digests: &[(u32, Vec<u8>)], certs: &[Vec<u8>], attrs: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut v = lp(&enc_list(digests));
    let c: Vec<u8> = certs.iter().flat_map(|c| lp(c)).collect();
    v.extend(lp(&c));
    let at: Vec<u8> = attrs
        .iter()
        .flat_map(|(a, d)| {
            let mut e = a.to_le_bytes().to_vec();
            e.extend(d);
            lp(&e)
        })
        .collect();
    v.extend(lp(&at));
    v
}
pub fn enc_signer(signed: &[u8], sigs: &[(u32, Vec<u8>)], key: &[u8]) -> Vec<u8> {
    let mut v = lp(signed);
    v.extend(lp(&enc_list(sigs)));
    v.extend(lp(key));
    v
}
pub fn enc_block(pairs: &[(u32, Vec<u8>)]) -> Vec<u8> {
    let mut b = vec![];
    for (id, v) in pairs {
        b.extend((v.len() as u64 + 4).to_le_bytes());
        b.extend(id.to_le_bytes());
        b.extend(v);
    }
    let size = (b.len() + 24) as u64;
    let mut out = size.to_le_bytes().to_vec();
    out.extend(b);
    out.extend(size.to_le_bytes());
    out.extend(refimpl::MAGIC);
    out
}
pub fn sign_with(k: &Cred, data: &[u8]) -> Vec<u8> {
    match &k.key {
        Key::P256(s) => {
            use p256::ecdsa::signature::hazmat::PrehashSigner;
            let h = Sha256::digest(Sha256::digest(data));
            let g: Result<p256::ecdsa::Signature, _> = s.sign_prehash(&h);
            g.map(|g| g.to_der().as_bytes().to_vec()).unwrap_or_default()
        }
        Key::P384(s) => {
            use p384::ecdsa::signature::hazmat::PrehashSigner;
            let h = Sha384::digest(Sha512::digest(data));
            let g: Result<p384::ecdsa::Signature, _> = s.sign_prehash(&h);
            g.map(|g| g.to_der().as_bytes().to_vec()).unwrap_or_default()
        }
    }
}
/// Put another block in front of the central directory
pub fn with_block(strip: &[u8], block: &[u8]) -> Option<Vec<u8>> {
    let l = refimpl::zip_layout(strip)?;
    let mut out = strip[..l.cd].to_vec();
    out.extend(block);
    out.extend(&strip[l.cd..]);
    let e = l.eocd + block.len();
    out[e + 16..e + 20].copy_from_slice(&((l.cd + block.len()) as u32).to_le_bytes());
    Some(out)
}

fn forge(d: &[u8], creds: &[Arc<Cred>], k: &Cred, kind: ForgeKind) -> Option<Vec<u8>> {
    use ForgeKind as F;
    let Zip::Signed(_, b) = zip_class(d) else { return None };
    let victim = b.v2.first()?.first()?.clone();
    // whoever signed; only the kinds named after the signer use its key
    let own = creds.iter().find(|c| Some(&c.leaf) == victim.certs.first() && c.spki == victim.key)?;
    let mut p = refimpl::zip_strip(d)?;
    let l = refimpl::zip_layout(&p)?;
    let keep = matches!(
        kind,
        F::AddSigner | F::AddSignerFirst | F::AddSignerPair | F::AddStamp | F::AddUnbound { .. } | F::AddNoCerts { .. } | F::AddNoDigest { .. } | F::AddStampUnbound | F::StampBadDigest | F::StampNoDigest | F::StampBadSignature | F::BadSignatureToo | F::SignerBadDigest { .. } | F::SignerNoDigest
    );
    if !keep && (kind != F::StampOnly || l.cd > 0) {
        let at = if l.cd > 80 { l.cd - 3 } else { l.eocd + 22 };
        if let Some(x) = p.get_mut(at) {
            *x ^= 0x55;
        } else {
            return None;
        }
    }
    let dg = |a: u32| (a, refimpl::zip_digest(&p, a).unwrap_or_default());
    let good: Vec<(u32, Vec<u8>)> = victim.digests.iter().map(|x| dg(x.0)).collect();
    let all = enc_signed(&good, &victim.certs, &[]);
    let sig = |alg: u32, s: Vec<u8>| vec![(alg, s)];
    let vs = victim.sigs.clone();
    let by = |who: &Cred, digests: &[(u32, Vec<u8>)], certs: &[Vec<u8>]| {
        let s = enc_signed(digests, certs, &[]);
        enc_signer(&s, &sig(who.alg, sign_with(who, &s)), &who.spki)
    };
    let mut chain = vec![k.leaf.clone()];
    chain.extend(k.chain.iter().cloned());
    let mine = || by(k, &[dg(k.alg)], &chain);
    let theirs = || enc_signer(&victim.signed, &vs, &victim.key);
    let list = |s: &[Vec<u8>]| lp(&s.iter().flat_map(|s| lp(s)).collect::<Vec<u8>>());
    let stamps: Vec<(u32, Vec<u8>)> = b.pairs.iter().filter(|x| x.0 == refimpl::STAMP_ID).cloned().collect();
    let signer = match kind {
        F::NoSignatures => vec![enc_signer(&all, &[], &victim.key)],
        F::NoSigners => vec![],
        F::NoDigests => {
            let s = enc_signed(&[], &victim.certs, &[]);
            vec![enc_signer(&s, &vs, &victim.key)]
        }
        F::OtherKey => vec![enc_signer(&all, &sig(k.alg, sign_with(k, &all)), &k.spki)],
        F::OtherKeyVictimSpki => vec![enc_signer(&all, &sig(k.alg, sign_with(k, &all)), &victim.key)],
        F::OtherLeaf => {
            let mut c = vec![k.leaf.clone()];
            c.extend(victim.certs.iter().cloned());
            vec![by(k, &[dg(k.alg)], &c)]
        }
        F::OwnChain => vec![mine()],
        F::OwnChainAndTheirs => {
            let mut c = chain.clone();
            c.extend(victim.certs.iter().skip(1).cloned());
            c.push(own.root.clone());
            vec![by(k, &[dg(k.alg)], &c)]
        }
        F::GraftLeaf | F::GraftRoot => {
            let (from, old) = if kind == F::GraftLeaf { (victim.certs.first()?.clone(), own.spki.clone()) } else { (own.root.clone(), own.infos.iter().find(|i| i.der == own.root)?.spki.clone()) };
            let at = from.windows(old.len()).position(|w| w == old)?;
            if k.spki.len() != old.len() || k.spki == old {
                return None;
            }
            let mut c = vec![from];
            c[0][at..at + old.len()].copy_from_slice(&k.spki);
            c.extend(victim.certs.iter().skip(1).cloned());
            vec![by(k, &[dg(k.alg)], &c)]
        }
        F::RootAsLeaf => vec![by(k, &[dg(k.alg)], &[own.root.clone(), k.leaf.clone()])],
        F::OtherLeafVictimKey => {
            let mut c = chain.clone();
            c.extend(victim.certs.iter().cloned());
            let s = enc_signed(&good, &c, &[]);
            vec![enc_signer(&s, &vs, &victim.key)]
        }
        F::ExtraDigest => {
            let mut x = victim.digests.clone();
            let other = if x.iter().any(|y| y.0 == refimpl::ALG256) { refimpl::ALG512 } else { refimpl::ALG256 };
            x.push(dg(other));
            x.extend(good.clone());
            let s = enc_signed(&x, &victim.certs, &[]);
            vec![enc_signer(&s, &vs, &victim.key)]
        }
        F::UnknownAlgorithm => {
            let x: Vec<_> = victim.digests.iter().map(|y| (0x0999u32, y.1.clone())).collect();
            let s = enc_signed(&x, &victim.certs, &[]);
            vec![enc_signer(&s, &[(0x0999, vs.first()?.1.clone())], &victim.key)]
        }
        F::StaleSignature => vec![enc_signer(&all, &vs, &victim.key)],
        F::SecondSigner => vec![theirs(), by(k, &[dg(k.alg)], &[k.leaf.clone()])],
        F::AddSigner => vec![theirs(), mine()],
        F::AddSignerFirst => vec![mine(), theirs()],
        F::AddUnbound { first } | F::AddNoCerts { first } | F::AddNoDigest { first } => {
            let other = match kind {
                F::AddUnbound { .. } => by(k, &[dg(k.alg)], &victim.certs),
                F::AddNoCerts { .. } => by(k, &[dg(k.alg)], &[]),
                _ => by(k, &[], &chain),
            };
            if first {
                vec![other, theirs()]
            } else {
                vec![theirs(), other]
            }
        }
        F::AddStampUnbound | F::StampBadDigest | F::StampNoDigest | F::StampBadSignature => {
            let mut x = dg(own.alg);
            let leaf = &victim.certs[..1];
            let s = match kind {
                F::AddStampUnbound => by(k, &[dg(k.alg)], leaf),
                F::StampBadDigest => {
                    x.1[0] ^= 1;
                    by(own, &[x], leaf)
                }
                F::StampNoDigest if p.len() % 2 == 0 => by(own, &[], leaf),
                F::StampNoDigest => {
                    let other = if own.alg == refimpl::ALG256 { refimpl::ALG512 } else { refimpl::ALG256 };
                    by(own, &[dg(other), (0x0999, x.1)], leaf)
                }
                _ => {
                    let sd = enc_signed(&[x], leaf, &[]);
                    enc_signer(&sd, &sig(own.alg, sign_with(own, &all)), &own.spki)
                }
            };
            return with_block(&p, &enc_block(&[(refimpl::V2_ID, list(&[theirs()])), (refimpl::STAMP_ID, lp(&s))]));
        }
        F::AddSignerPair => {
            let mut x = vec![(refimpl::V2_ID, list(&[theirs()])), (refimpl::V2_ID, list(&[mine()]))];
            x.extend(stamps);
            return with_block(&p, &enc_block(&x));
        }
        F::AddStamp => {
            let s = by(k, &[dg(k.alg)], &[k.leaf.clone()]);
            return with_block(&p, &enc_block(&[(refimpl::V2_ID, list(&[theirs()])), (refimpl::STAMP_ID, lp(&s))]));
        }
        F::OldStamp => {
            // an honest update under an old stamp
            let mut x = vec![(refimpl::V2_ID, list(&[by(own, &[dg(own.alg)], &victim.certs)]))];
            if stamps.is_empty() {
                return None;
            }
            x.extend(stamps);
            return with_block(&p, &enc_block(&x));
        }
        F::SameBlock => return with_block(&p, refimpl::zip_block(d)?),
        F::BadSignatureToo => {
            let mut x = vs.clone();
            x.push((own.alg, sign_with(k, &victim.signed)));
            vec![enc_signer(&victim.signed, &x, &victim.key)]
        }
        F::SignerBadDigest { len } => {
            let mut x = dg(own.alg);
            let n = x.1.len();
            let other = dg(if own.alg == refimpl::ALG256 { refimpl::ALG512 } else { refimpl::ALG256 });
            if len == 6 || len == 7 {
                // right for the other algorithm
                x.1 = other.1.clone();
                let both = if len == 7 { vec![x, other] } else { vec![x] };
                return with_block(&p, &enc_block(&[(refimpl::V2_ID, list(&[by(own, &both, &victim.certs)]))]));
            }
            match len {
                0 => x.1.clear(),
                1 => x.1.truncate(n / 2),
                2 => x.1.truncate(n - 1),
                3 => x.1.push(0),
                4 => x.1.truncate(1),
                _ => x.1[n - 1] ^= 1,
            }
            vec![by(own, &[x], &victim.certs)]
        }
        F::SignerNoDigest => {
            let other = if own.alg == refimpl::ALG256 { refimpl::ALG512 } else { refimpl::ALG256 };
            vec![by(own, &[dg(other)], &victim.certs)]
        }
        F::SignerShortChain => vec![by(own, &[dg(own.alg)], &victim.certs[..1])],
        F::SignerReversedChain => {
            let mut c = victim.certs.clone();
            c[1..].reverse();
            vec![by(own, &[dg(own.alg)], &c)]
        }
        F::StampOnly => {
            let s = by(k, &[dg(k.alg)], &[k.leaf.clone()]);
            return with_block(&p, &enc_block(&[(refimpl::STAMP_ID, lp(&s))]));
        }
    };
    let mut pairs = vec![(refimpl::V2_ID, list(&signer))];
    if keep {
        pairs.extend(stamps);
    }
    with_block(&p, &enc_block(&pairs))
}

pub fn env_op(w: &mut World, op: &Op, creds: &[Arc<Cred>], hist: &mut Hist, seed: u64) {
    let _ = seed;
    match op {
        Op::Damage { path, damage } => {
            if let Some(d) = w.get(path) {
                let mut d = (*d).clone();
                for x in damage {
                    content::damage(&mut d, x);
                }
                w.put(path, d);
            }
        }
        Op::Copy { from, to } => {
            if let Some(d) = w.get(from) {
                w.put(to, (*d).clone());
            }
        }
        Op::Extract { from, to } => {
            if let Some(d) = w.get(from) {
                let b = if is_elf(&d) { refimpl::elf_block(&d) } else { refimpl::zip_block(&d).map(|b| b.to_vec()) };
                w.put(to, b.unwrap_or_default());
            }
        }
        Op::Clock { secs } => w.clock = *secs as i128 * 1_000_000_000,
        Op::Forge { path, cred, kind } => {
            if let Some(d) = w.get(path) {
                let k = &creds[*cred as usize];
                if let Some(x) = forge(&d, creds, k, *kind) {
                    // whose keys made valid signatures over this content
                    let payload = refimpl::zip_digest(&x, refimpl::ALG256).unwrap_or_default();
                    if let Zip::Signed(_, b) = zip_class(&x) {
                        for g in b.v2.iter().flatten().chain(&b.stamps) {
                            let fits = g.digests.iter().any(|y| refimpl::zip_digest(&x, y.0).as_ref() == Some(&y.1));
                            if refimpl::verify_signer(g).is_err() || !fits {
                                continue;
                            }
                            for (n, _) in creds.iter().enumerate().filter(|(_, c)| c.spki == g.key) {
                                hist.signs.push(SignRec { v2: Some(n as u32), stamp: None, payload: payload.clone(), file: [0; 32] });
                            }
                        }
                    }
                    w.put(path, x);
                }
            }
        }
        _ => {}
    }
}
