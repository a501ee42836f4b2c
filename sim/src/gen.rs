//! From a seed to a scenario. Generation has two phases: `base` lays out the history, `inject`
//! places faults, crashes, preemptions and environment events into it, knowing how many system
//! calls each step made when nothing went wrong.
use crate::content::{Damage, Decoy, ElfSpec, FieldVal, FileSpec, ItemEdit, PairEdit, Region, SecSpec, ZipSpec};
use crate::creds::{CredSpec, Flaw, KeyFmt};
use crate::exec::{input, Report};
use crate::rng::{derive, hash_str, Rng};
use crate::scenario::{ForgeKind, ObjOp, Op, Pw, Root, Scenario, Step, Via};
use crate::world::{Call, Crash, CrashKind, Event, EventKind, Fault, FaultKind};
use std::collections::BTreeMap;

pub const FAMILIES: &[&str] = &[
    "digest", "sign", "crash", "damage", "concurrent", "creds", "object", "stamp", "limits", "dump", "process", "elf",
    "verify", "forge", "multi", "info",
];

const MIB: u64 = 1 << 20;

fn near(r: &mut Rng, x: u64) -> u64 {
    let d = *r.pick(&[0i64, 1, -1, 2, -2, 7, -9, 100, -100, 4095, -4095]);
    (x as i64 + d).max(0) as u64
}

/// `big`: may cross chunk boundaries
fn gen_zip(r: &mut Rng, big: bool) -> ZipSpec {
    let mut entries = *r.pick(&[0u32, 1, 1, 2, 3, 5, 17]);
    let content = match r.weighted(&[20, 40, if big { 30 } else { 0 }, if big { 1 } else { 0 }]) {
        0 => r.below(300),
        1 => r.below(40_000),
        2 => {
            let k = r.range(1, 3) * MIB;
            near(r, k)
        }
        _ => {
            let k = r.range(16, 18) * MIB;
            near(r, k)
        }
    };
    let mut cd = 0;
    if big && r.chance(1, 6) {
        entries = 40;
        cd = near(r, MIB * r.clone().range(1, 2));
    } else if r.chance(1, 8) {
        cd = r.below(3000);
    }
    let comment = match r.weighted(&[12, 4, 2, 2, 1]) {
        0 => 0,
        1 => r.below(400) as u32,
        2 => 65535 - r.below(3) as u32,
        3 => *r.pick(&[1u32, 21, 22, 65535 - 22, 4096, 8192, 1000]),
        _ => r.below(65536) as u32,
    };
    let trailing = if r.chance(1, 5) && comment < 60_000 { *r.pick(&[1u32, 4, 21, 22, 40, 300, 3000]) } else { 0 };
    let mut decoys = vec![];
    while r.chance(1, 4) {
        decoys.push(match r.below(8) {
            0 => Decoy::MagicInContent { from_end: *r.pick(&[0u32, 1, 7, 8, 100, 1000]) },
            1 => Decoy::BlockInContent { from_end: *r.pick(&[0u32, 1, 24, 500]), size: *r.pick(&[24u32, 100, 4088, 2000]) },
            2 => Decoy::MagicInCd,
            3 => Decoy::MagicInComment,
            4 => Decoy::EocdInComment,
            5 => Decoy::EocdInTrailing,
            6 => Decoy::EocdInCd,
            _ => Decoy::HalfMagicAtEnd,
        });
    }
    // what the end record says of disks is nobody's business
    let disks = if r.chance(1, 6) { (*r.pick(&[0u16, 1, 0x1234, 0xffff]), *r.pick(&[0u16, 2, 0x5678, 0xffff])) } else { (0, 0) };
    ZipSpec { seed: r.next() >> 32, entries, content, cd, comment, trailing, decoys, disks }
}

fn gen_elf(r: &mut Rng, big: bool) -> ElfSpec {
    let mut secs = vec![];
    let sz = |r: &mut Rng| match r.weighted(&[3, 10, if big { 5 } else { 0 }]) {
        0 => r.range(1, 20),
        1 => r.range(1, 9000),
        _ => {
            let k = r.range(1, 2) * MIB;
            near(r, k)
        }
    };
    let al = |r: &mut Rng| *r.pick(&[1u32, 4, 8, 16, 64, 4096]);
    secs.push(SecSpec { name: ".text".into(), size: sz(r), nobits: false, align: al(r) });
    if !r.chance(1, 12) {
        secs.push(SecSpec { name: ".rodata".into(), size: if r.chance(1, 14) { 0 } else { sz(r) }, nobits: r.chance(1, 20), align: al(r) });
    }
    const LONG: &str = ".text._ZN4core3ptr85drop_in_place_std_rt_lang_start_closure_with_a_rather_long_mangled_name_17h0123456789abcdefE_and_more_of_it_so_that_it_is_longer_than_one_byte_of_length_can_say_which_is_two_hundred_and_fifty_five_characters_in_all_or_a_few_more_than_that_to_be_on_the_safe_side";
    for n in [".data", ".bss", ".note.ksu", ".text.hot", ".rela.text", "x.rodata",  "rodata", ".init_array", ".t", ".dätä", "区段", LONG] {
        if r.chance(1, if n.len() > 20 || !n.is_ascii() { 9 } else { 3 }) {
            let e = r.chance(1, 12);
            let s = if r.chance(1, 8) { sz(r) } else { r.range(1, 3000) };
            secs.push(SecSpec { name: n.into(), size: if e { 0 } else { s }, nobits: n == ".bss", align: al(r) });
        }
    }
    // names that differ from the ones that mean something by little
    for n in [".ksu_signers", ".ksu_sig", "x.ksu_sign", ".KSU_SIGN", ".ksu_sign.old", "ksu_sign", ".Text", ".text.", "..text", ".rodata1", ".Data"] {
        if r.chance(1, 14) {
            let s = r.range(1, 3000);
            secs.push(SecSpec { name: n.into(), size: s, nobits: false, align: al(r) });
        }
    }
    // somebody else's idea of a signature
    if r.chance(1, 10) {
        let s = *r.pick(&[0, 1, 4, 24, 32, 100, 5000]);
        secs.push(SecSpec { name: ".ksu_sign".into(), size: s, nobits: false, align: al(r) });
    }
    if r.chance(1, 2) {
        for i in (1..secs.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            secs.swap(i, j);
        }
    }
    ElfSpec {
        seed: r.next() >> 32,
        is64: r.chance(2, 3),
        le: r.chance(3, 4),
        shuffle: r.chance(1, 2),
        strtab_at: if r.chance(1, 2) { 99_999 } else { r.below(secs.len() as u64 + 1) as u32 },
        many: if r.chance(1, 14) { *r.pick(&[1u32, 12, 30, 100, 240, 250, 255, 256, 300, 330, 500]) + r.below(12) as u32 } else { 0 },
        gap: if r.chance(1, 20) { *r.pick(&[10u32, 250, 4000, 65_500, 65_530, 70_000]) + r.below(12) as u32 } else { 0 },
        secs,
        table_first: r.chance(1, 4),
        phdrs: r.below(4) as u32,
        trailing: if r.chance(1, 4) { r.range(1, 600) as u32 } else { 0 },
        rich: r.chance(1, 2),
        str_align: *r.pick(&[1u64, 1, 1, 4, 16, 0, 4096, 65536]),
    }
}

fn gen_cred(r: &mut Rng) -> CredSpec {
    let mut c = CredSpec::simple(r.below(5), r.chance(1, 3));
    c.fmt = *r.pick(&[KeyFmt::Pkcs8, KeyFmt::Pkcs8, KeyFmt::Sec1, KeyFmt::EncPkcs8, KeyFmt::P12, KeyFmt::P12]);
    if matches!(c.fmt, KeyFmt::EncPkcs8 | KeyFmt::P12) {
        c.password = r.pick(&["secret", "a", "pass word", "0123456789abcdef0123456789abcdef", "päss"]).to_string();
    }
    let n = if r.chance(1, 20) { 4 + r.below(9) as usize } else { *r.pick(&[0usize, 0, 1, 1, 2, 3]) };
    c.chain = (0..n).map(|_| *r.pick(&[0u32, 0, 0, 200, 700])).collect();
    c.omit_root = n > 0 && r.chance(1, 4);
    if r.chance(1, 5) {
        c.order = 1 + r.below(5) as u8;
    }
    if r.chance(1, 8) {
        c.seed = r.below(1000);
    }
    c.leaf_pad = *r.pick(&[0u32, 0, 0, 300, 1000]);
    if !matches!(c.fmt, KeyFmt::P12) {
        c.pem_noise = r.chance(1, 4);
        c.crlf = r.chance(1, 6);
    }
    c
}
fn gen_pw(r: &mut Rng) -> Pw {
    *r.pick(&[Pw::Right, Pw::Right, Pw::Right, Pw::Right, Pw::Right, Pw::Right, Pw::Wrong, Pw::Missing, Pw::Missing, Pw::Short, Pw::Case, Pw::Empty, Pw::Blank])
}
fn gen_flaw(r: &mut Rng, fmt: KeyFmt) -> Flaw {
    let frac = r.below(10_000) as u32;
    let bit = r.below(8) as u8;
    let cert = r.below(4) as u8;
    let at = r.below(2000) as u32;
    let key = if r.chance(1, 2) { Flaw::CutKey { frac } } else { Flaw::FlipKey { frac, bit } };
    match fmt {
        KeyFmt::P12 => key,
        // nothing in such a file tells a changed key from the right one
        KeyFmt::Sec1 if r.chance(1, 3) => Flaw::CutKey { frac },
        KeyFmt::Pkcs8 | KeyFmt::EncPkcs8 if r.chance(1, 3) => key,
        _ => match r.below(7) {
            0 => Flaw::CutCert { frac },
            1 => Flaw::FlipCert { frac, bit },
            2 => Flaw::BadChar { cert, at },
            3 => Flaw::NoEnd { cert },
            4 => Flaw::NoBegin { cert },
            5 => Flaw::OtherEnd { cert },
            _ => Flaw::Hole { cert, at, len: r.below(80) as u8 },
        },
    }
}
fn plain_cred(r: &mut Rng) -> CredSpec {
    let mut c = CredSpec::simple(r.below(5), r.chance(1, 3));
    let n = *r.pick(&[0usize, 0, 0, 1, 2]);
    c.chain = vec![0; n];
    c
}

fn fault(call: Call, skip: u32, count: u32, kind: FaultKind) -> Fault {
    Fault { call, file: None, actor: None, skip, count, kind, seen: 0 }
}

/// Perturbations that a correct program does not notice
fn soft(r: &mut Rng, size: u64) -> Vec<Fault> {
    let mut v = vec![];
    let split = |r: &mut Rng| {
        let min = (size / 3000).max(1) as u32;
        let max = *r.pick(&[1u32, 2, 7, 64, 511, 4096, 8191, 65_536, 65_537, 1 << 20, (1 << 20) + 1]);
        FaultKind::Split { seed: r.next() >> 40, max: max.max(min) }
    };
    if r.chance(2, 3) {
        if r.chance(1, 2) {
            let k = split(r);
            v.push(fault(Call::Read, 0, u32::MAX, k));
        } else {
            let n = *r.pick(&[1u32, 3, 4, 100, 4096, 70_000, 1_000_000]);
            v.push(fault(Call::Read, r.below(12) as u32, 1 + r.below(3) as u32, FaultKind::Short(n)));
        }
    }
    if r.chance(1, 3) {
        let k = split(r);
        v.push(fault(Call::Write, 0, u32::MAX, k));
    }
    if r.chance(1, 2) {
        let call = *r.pick(&[Call::Read, Call::Read, Call::Write, Call::Open, Call::Sync]);
        v.push(fault(call, r.below(10) as u32, 1 + r.below(4) as u32, FaultKind::Errno(libc::EINTR)));
    }
    v
}

fn hard_errno(r: &mut Rng, c: Call) -> i32 {
    match c {
        Call::Write => *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EPIPE, libc::EFBIG, libc::EROFS, libc::EAGAIN, libc::ETIMEDOUT, libc::ESTALE]),
        Call::Read => *r.pick(&[libc::EIO, libc::EIO, libc::ESTALE, libc::EPIPE, libc::EAGAIN, libc::ETIMEDOUT, libc::EACCES, libc::ENOMEM, libc::EISDIR]),
        Call::Open => *r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOSPC, libc::ENFILE, libc::EROFS, libc::EPERM, libc::EBUSY, libc::ENOMEM]),
        Call::Sync => *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT]),
        Call::Rename => *r.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EPERM, libc::EROFS, libc::EBUSY]),
        Call::Chmod => libc::EPERM,
        Call::Stat => *r.pick(&[libc::EIO, libc::EACCES, libc::ESTALE, libc::ENOMEM]),
        _ => *r.pick(&[libc::EIO, libc::ENOMEM]),
    }
}

struct B {
    r: Rng,
    sc: Scenario,
}
impl B {
    fn file(&mut self, name: &str, f: FileSpec) -> String {
        let p = format!("/sim/in/{name}");
        self.sc.files.insert(p.clone(), f);
        p
    }
    fn zip(&mut self, name: &str, big: bool) -> String {
        let z = gen_zip(&mut self.r, big);
        self.file(name, FileSpec::Zip(z))
    }
    fn elf(&mut self, name: &str, big: bool) -> String {
        let z = gen_elf(&mut self.r, big);
        self.file(name, FileSpec::Elf(z))
    }
    fn any(&mut self, name: &str, big: bool) -> String {
        if self.r.chance(1, 4) {
            self.elf(name, big)
        } else {
            self.zip(name, big)
        }
    }
    fn cred(&mut self) -> u32 {
        let c = if self.r.chance(1, 2) { gen_cred(&mut self.r) } else { plain_cred(&mut self.r) };
        self.sc.creds.push(c);
        self.sc.creds.len() as u32 - 1
    }
    fn one(&mut self, op: Op) {
        self.sc.steps.push(Step { ops: vec![op], ..Default::default() });
    }
    fn softly(&mut self, op: Op, size: u64) {
        let faults = if self.r.chance(1, 2) { soft(&mut self.r, size) } else { vec![] };
        self.sc.steps.push(Step { ops: vec![op], faults, ..Default::default() });
    }
    fn size(&self, p: &str) -> u64 {
        match self.sc.files.get(p) {
            Some(FileSpec::Zip(z)) => z.content + z.cd + z.comment as u64 + 22,
            Some(FileSpec::Elf(e)) => e.secs.iter().map(|s| if s.nobits { 0 } else { s.size }).sum::<u64>() + 4096,
            _ => 60_000,
        }
    }
    fn is_elf(&self, p: &str) -> bool {
        matches!(self.sc.files.get(p), Some(FileSpec::Elf(_)))
    }
    /// section names to ask for
    fn sections(&mut self, p: &str) -> Vec<String> {
        let Some(FileSpec::Elf(e)) = self.sc.files.get(p) else {
            return if self.r.chance(1, 25) { vec![".text".into()] } else { vec![] };
        };
        if self.r.chance(2, 5) {
            return vec![];
        }
        let many = e.many as u64;
        let mut v: Vec<String> = e.secs.iter().map(|s| s.name.clone()).collect();
        v.retain(|n| self.r.chance(1, if n == ".ksu_sign" { 12 } else { 2 }));
        if many > 0 && self.r.chance(2, 3) {
            // a few of the further ones, or all of them
            let from = if self.r.chance(1, 2) { 1 } else { self.r.below(many) };
            let upto = if self.r.chance(1, 2) { many } else { (from + self.r.below(40)).min(many) };
            v.extend((from..upto).filter(|i| i % 5 != 0).map(|i| format!(".more{i}")));
        }
        if self.r.chance(1, 12) {
            v.push(".missing".into());
        }
        if self.r.chance(1, 12) && !v.is_empty() {
            // nearly the name of a section
            let i = self.r.below(v.len() as u64) as usize;
            let n = v[i].clone();
            let near = match self.r.below(5) {
                0 => n.to_uppercase(),
                1 => format!("{n}x"),
                2 => n.trim_start_matches('.').to_string(),
                3 => n.chars().take(n.chars().count() - 1).collect(),
                _ => format!(".{n}"),
            };
            if !near.is_empty() {
                v[i] = near;
            }
        }
        // refused in any case by decision of the code; only the exact name is asked for
        v.retain(|n| n == ".ksu_sign" || !n.eq_ignore_ascii_case(".ksu_sign"));
        if self.r.chance(1, 2) {
            v.reverse();
        }
        match self.r.below(30) {
            0 => v = vec![self.r.pick(&["", " ", "\t "]).to_string()],
            1 if !v.is_empty() => {
                let i = self.r.below(v.len() as u64) as usize;
                v[i] = format!(" {} ", v[i]);
            }
            2 if !v.is_empty() => v.push(String::new()),
            _ => {}
        }
        v
    }
    fn sign(&mut self, input: &str, output: &str, v2: u32, stamp: Option<u32>) -> Op {
        let sections = self.sections(input);
        Op::Sign { input: input.into(), output: output.into(), v2, stamp, sections, pw: Pw::Right, spw: Pw::Right, process: false }
    }
    fn digest(&mut self, input: &str) -> Op {
        let sections = self.sections(input);
        let via = *self.r.pick(&[Via::Cli, Via::Signable, Via::Direct, Via::Reader]);
        Op::Digest { input: input.into(), alg512: self.r.chance(1, 2), via, base64: self.r.chance(1, 4), sections }
    }
    fn dump(&mut self, input: &str, output: &str) -> Op {
        let sections = self.sections(input);
        Op::Dump { input: input.into(), output: output.into(), sections, process: false }
    }
    /// something that is already at the output path
    fn occupy(&mut self, p: &str) {
        match self.r.below(6) {
            0 | 1 => {
                let n = self.r.below(5000);
                let s = self.r.next() >> 40;
                self.sc.files.insert(p.into(), FileSpec::Raw { seed: s, len: n, head: vec![] });
            }
            2 => {
                let z = gen_zip(&mut self.r, false);
                self.sc.files.insert(p.into(), FileSpec::Zip(z));
            }
            3 => {
                let t = format!("{p}.target");
                let n = self.r.below(3000);
                if self.r.chance(2, 3) {
                    self.sc.files.insert(t.clone(), FileSpec::Raw { seed: 5, len: n, head: vec![] });
                }
                let to = if self.r.chance(1, 2) { t } else { format!("{}.target", p.rsplit('/').next().unwrap_or("")) };
                self.sc.files.insert(p.into(), FileSpec::Link(to));
            }
            _ => {}
        }
    }
    fn reader(&mut self, p: &str) -> Op {
        match self.r.below(4) {
            0 => Op::Inspect { input: p.into() },
            1 => self.digest(p),
            2 => Op::Observe { path: p.into(), times: 1 + self.r.below(4) as u32 },
            _ => Op::Inspect { input: p.into() },
        }
    }
    fn stamp(&mut self) -> Option<u32> {
        if self.r.chance(2, 5) {
            Some(self.cred())
        } else {
            None
        }
    }
    fn damage(&mut self, elf: bool) -> Vec<Damage> {
        let r = &mut self.r;
        let mut v = vec![];
        let zr = [
            Region::Block,
            Region::BlockHead,
            Region::BlockSize,
            Region::BlockMagic,
            Region::BlockBody,
            Region::BlockBody,
            Region::Content,
            Region::Cd,
            Region::Eocd,
            Region::Eocd,
            Region::Whole,
        ];
        let er = [
            Region::ElfHeader,
            Region::ElfHeader,
            Region::ElfTable,
            Region::ElfTable,
            Region::ElfNames,
            Region::ElfSign,
            Region::BlockHead,
            Region::BlockSize,
            Region::BlockMagic,
            Region::BlockBody,
            Region::Whole,
        ];
        for _ in 0..1 + r.below(3) {
            let reg = if elf { *r.pick(&er) } else { *r.pick(&zr) };
            let f = r.below(65536) as u32;
            v.push(match r.weighted(&[10, 8, 2, 2, 2, 3, 3, 3, 14, if elf { 0 } else { 6 }, 14, 5, if elf { 8 } else { 0 }]) {
                0 => Damage::Flip { region: reg, frac: f, xor: 1 << r.below(8) },
                1 => {
                    let n = *r.pick(&[0u64, 1, 7, 8, 15, 16, 23, 24, 25, 31, 32, 16383, 16384, 16385, 0x7fff_ffff, 0xffff_ffff, u64::MAX, 1 << 40]);
                    let w = *r.pick(&[4usize, 8, 2, 1]);
                    Damage::Set { region: reg, off: *r.pick(&[0u32, 4, 8, 10, 12, 16, 20, 24, 32, 40, 48, 60, 64]), bytes: n.to_le_bytes()[..w].to_vec() }
                }
                2 => Damage::Truncate { frac: f },
                3 => Damage::CutTail { bytes: *r.pick(&[1u32, 2, 22, 23, 100]) },
                4 => Damage::Append { bytes: *r.pick(&[1u32, 10, 22, 65_600, 70_000]) },
                5 => Damage::ZeroRange { region: reg, frac: f, len: *r.pick(&[1u32, 4, 8, 16, 100]) },
                6 => Damage::Excise { region: reg, frac: f, len: *r.pick(&[1u32, 4, 8, 16, 100]) },
                7 => Damage::Insert { region: reg, frac: f, len: *r.pick(&[1u32, 4, 8, 16, 100, 5000]) },
                8 => {
                    let val = match r.below(6) {
                        0 => FieldVal::Max,
                        1 => FieldVal::Exact(*r.pick(&[0u64, 1, 2, 3, 4, 8, 24, 16383, 16384, 16385, 0x7fff_ffff, 0xffff_fff0, 0xffff_ffff])),
                        _ => FieldVal::Add(*r.pick(&[1i64, -1, 4, -4, 8, -8, 12, 16, 100, 1000, -100, 1 << 20, 1 << 31])),
                    };
                    Damage::Field { idx: r.below(60) as u32, val }
                }
                11 => {
                    // a size of the block at the edges of what arithmetic can hold
                    let n = match r.below(6) {
                        4 | 5 => r.below(20_000),
                        0 | 1 => u64::MAX - r.below(48),
                        2 => (1u64 << *r.pick(&[31u32, 32, 63])).wrapping_add(r.below(48)).wrapping_sub(24),
                        _ => r.below(64),
                    };
                    Damage::Set { region: *r.pick(&[Region::BlockHead, Region::BlockSize, Region::BlockSize]), off: 0, bytes: n.to_le_bytes().to_vec() }
                }
                12 if r.chance(3, 5) => {
                    let val = match r.below(4) {
                        0 => FieldVal::Exact(*r.pick(&[0u64, 1, 31, 32, 33, 5000, 100_000, 1 << 20, 0x7fff_ffff, 0xffff_f000, u64::MAX - 4095])),
                        1 => FieldVal::Max,
                        _ => FieldVal::Add(*r.pick(&[1i64, -1, 8, -8, 4096, -4096, 100_000, 1 << 33])),
                    };
                    // most often the signature section, else one that may be covered by a signature
                    if r.chance(2, 3) {
                        Damage::SignSec { field: *r.pick(&[0u8, 1, 2, 3, 4, 4, 4, 5, 5, 5]), val, of: None }
                    } else {
                        let val = if r.chance(1, 2) { FieldVal::Exact(*r.pick(&[0u64, 1, 4, 16, 40, 51, 52, 53, 60, 63, 64, 65, 100, 4096])) } else { val };
                        Damage::SignSec { field: *r.pick(&[0u8, 4, 4, 4, 5]), val, of: Some(r.below(12) as u32) }
                    }
                }
                12 => {
                    // a field of one section header, 64 or 32 bit
                    let n = match r.below(5) {
                        0 | 1 => u64::MAX - r.below(4096),
                        2 => (1u64 << *r.pick(&[12u32, 16, 20, 31, 32, 63])).wrapping_add(r.below(64)).wrapping_sub(32),
                        3 => 1000 + r.below(40_000),
                        _ => r.below(64),
                    };
                    let sec = r.below(12) as u32;
                    if r.chance(3, 4) {
                        let (o, w) = *r.pick(&[(0u32, 4usize), (4, 4), (8, 8), (16, 8), (24, 8), (24, 8), (32, 8), (32, 8), (40, 4), (44, 4), (48, 8), (48, 8), (56, 8)]);
                        Damage::Set { region: Region::ElfTable, off: sec * 64 + o, bytes: n.to_le_bytes()[..w].to_vec() }
                    } else {
                        let o = *r.pick(&[0u32, 4, 8, 12, 16, 16, 20, 20, 24, 28, 32, 32, 36]);
                        Damage::Set { region: Region::ElfTable, off: sec * 40 + o, bytes: n.to_le_bytes()[..4].to_vec() }
                    }
                }
                10 => Damage::Item {
                    idx: r.below(40) as u32,
                    edit: match r.below(8) {
                        0..=2 => ItemEdit::Grow { len: *r.pick(&[1u32, 2, 3, 4, 5, 8, 12, 40]), byte: *r.pick(&[0u8, 0, 1, 4, 0xff]) },
                        3 | 4 => ItemEdit::Cut { len: *r.pick(&[1u32, 2, 3, 4, 8, 20, 100_000]) },
                        5 => ItemEdit::Repeat,
                        6 => ItemEdit::Remove,
                        _ => ItemEdit::Fill { at: r.below(100) as u32, len: *r.pick(&[1u32, 4, 20, 10_000]), byte: *r.pick(&[0u8, 1, 0xff]) },
                    },
                },
                _ => Damage::Pairs {
                    edit: match r.below(8) {
                        0 => PairEdit::Dup(r.below(4) as u32),
                        1 => PairEdit::Remove(r.below(4) as u32),
                        2 => PairEdit::Swap(r.below(4) as u32, r.below(4) as u32),
                        3 => PairEdit::Add { id: *r.pick(&[0x1234u32, 0xffff_ffff, 0x4c45_534b, 0x4272_6577, 0]), len: *r.pick(&[0u32, 1, 4, 8, 100, 4000]), at: r.below(4) as u32 },
                        4 => PairEdit::Fill { size: *r.pick(&[16384u32, 16383, 16385, 16376, 16392, 8184]) },
                        5 | 6 => PairEdit::Any { seed: r.next() >> 40 },
                        _ => PairEdit::Reverse,
                    },
                },
            });
        }
        v
    }
    fn lib_sign(&mut self, input: &str, output: &str, v2: Option<u32>, stamp: Option<u32>) -> Op {
        let sections = self.sections(input);
        Op::LibSign {
            input: input.into(),
            output: output.into(),
            v2,
            stamp,
            timestamp: self.r.chance(2, 3),
            padding: self.r.chance(2, 3),
            sections,
            buffered: self.r.chance(1, 2),
            old_stamp: v2.is_some() && stamp.is_some() && self.r.chance(1, 5),
        }
    }
    fn after_damage(&mut self, p: &str, out: &str) {
        for _ in 0..1 + self.r.below(3) {
            let op = match self.r.below(if cfg!(feature = "verify") { 9 } else { 8 }) {
                0 | 1 => Op::Inspect { input: p.into() },
                2 | 3 => self.digest(p),
                4 => {
                    let c = if self.sc.creds.is_empty() { self.cred() } else { 0 };
                    self.sign(p, out, c, None)
                }
                5 => self.dump(p, out),
                6 => {
                    let s = self.script(false);
                    Op::Object { input: p.into(), raw: false, script: s }
                }
                7 => Op::AddStamp { input: p.into(), output: out.into(), stamp: 0, timestamp: true, padding: self.r.chance(1, 2) },
                _ if self.r.chance(1, 2) => Op::Info { input: p.into(), process: false },
                _ => Op::Verify { input: p.into(), root: Root::Of(0), via: *self.r.pick(&[Via::Cli, Via::Direct]) },
            };
            self.one(op);
        }
    }
    fn script(&mut self, creds_only_small: bool) -> Vec<ObjOp> {
        let mut v = vec![];
        let n = 1 + self.r.below(7);
        let mut k = 0;
        let sign = !creds_only_small;
        for _ in 0..n {
            v.push(match self.r.below(10) {
                0 | 1 => ObjOp::Digest { alg512: self.r.chance(1, 2) },
                2 => ObjOp::Block,
                3 => ObjOp::Offsets,
                4 => ObjOp::Raw,
                5 | 6 if sign => ObjOp::Sign { cred: self.r.below(self.sc.creds.len().max(1) as u64) as u32 },
                7 => {
                    k += 1;
                    ObjOp::Write { to: format!("/sim/out/obj{k}") }
                }
                8 => ObjOp::Regions,
                9 => {
                    k += 1;
                    ObjOp::TraitWrite { to: format!("/sim/out/obj{k}") }
                }
                _ => ObjOp::IsSigned,
            });
        }
        v
    }
}

pub fn base(family: &str, seed: u64) -> Scenario {
    let mut b = B {
        r: Rng::new(derive(&[seed, hash_str(family)])),
        sc: Scenario {
            family: family.into(),
            seed,
            clock: 1_700_000_000,
            tick: 0,
            files: BTreeMap::new(),
            creds: vec![],
            steps: vec![],
        },
    };
    b.sc.clock = 1_600_000_000 + b.r.below(200_000_000) as i64;
    b.sc.tick = *b.r.pick(&[1_000u64, 50_000, 1_000_000, 900_000_000]);
    match family {
        // more chunks than one byte can count
        "digest" if b.r.chance(1, 800) => {
            let p = if b.r.chance(1, 2) { b.elf("a", false) } else { b.zip("a", true) };
            let content = 254 * MIB + b.r.below(8 * MIB);
            match b.sc.files.get_mut(&p) {
                Some(FileSpec::Zip(z)) => z.content = content,
                Some(FileSpec::Elf(e)) => e.secs.iter_mut().filter(|s| s.name == ".text").for_each(|s| s.size = content),
                _ => {}
            }
            let mut op = b.digest(&p);
            if let Op::Digest { sections, .. } = &mut op {
                if b.is_elf(&p) {
                    *sections = vec![".text".into()];
                }
            }
            b.one(op);
        }
        "digest" => {
            let big = b.r.chance(2, 3);
            let mut p = b.any("a", big);
            let size = b.size(&p);
            if b.r.chance(1, 3) {
                let c = b.cred();
                let st = b.stamp();
                let op = b.sign(&p, "/sim/out/s", c, st);
                b.one(op);
                if b.r.chance(3, 4) {
                    // sections of the signed file are those of the input
                    if let Some(f) = b.sc.files.get(&p).cloned() {
                        if matches!(f, FileSpec::Elf(_)) && b.r.chance(1, 2) {
                            let op = b.digest(&p);
                            if let Op::Digest { alg512, via, base64, sections, .. } = op {
                                b.softly(Op::Digest { input: "/sim/out/s".into(), alg512, via, base64, sections }, size);
                            }
                        }
                    }
                    p = "/sim/out/s".into();
                }
            }
            for _ in 0..1 + b.r.below(3) {
                let op = b.digest(&p);
                b.softly(op, size);
            }
            if b.r.chance(1, 3) {
                b.softly(Op::Inspect { input: p.clone() }, size);
            }
        }
        "sign" | "crash" => {
            let crash = family == "crash";
            let big = b.r.chance(1, 4) && !crash;
            let p = if b.r.chance(1, 5) { b.elf("a", big) } else { b.zip("a", big) };
            let size = b.size(&p);
            let mut cur = p.clone();
            let inplace = b.r.chance(1, 3);
            let n = if crash { 1 + b.r.below(2) } else { 1 + b.r.below(3) };
            let mut last_out = String::new();
            for k in 0..n {
                let c = b.cred();
                let st = b.stamp();
                let out = if inplace || (k > 0 && b.r.chance(1, 3)) { cur.clone() } else { format!("/sim/out/o{}", b.r.below(2)) };
                if out != cur && out != last_out && k == 0 {
                    b.occupy(&out);
                }
                let op = b.sign(&cur, &out, c, st);
                b.softly(op, size);
                if b.r.chance(1, 2) {
                    let op = b.reader(&out);
                    b.softly(op, size);
                }
                last_out = out.clone();
                if b.r.chance(3, 4) {
                    cur = out;
                }
            }
            if crash && b.r.chance(1, 4) {
                let op = b.dump(&cur, "/sim/out/o0");
                b.one(op);
            }
        }
        "elf" => {
            let big = b.r.chance(1, 5);
            let p = b.elf("a", big);
            let size = b.size(&p);
            let c = b.cred();
            let st = b.stamp();
            if b.r.chance(1, 6) {
                // a section that lies where something else is
                let val = match b.r.below(3) {
                    0 => FieldVal::Add(*b.r.pick(&[-1i64, 1, -16, -64, -300, -4096, 700])),
                    _ => FieldVal::Exact(*b.r.pick(&[0u64, 1, 4, 16, 40, 51, 52, 63, 64, 65, 100, 500])),
                };
                let d = Damage::SignSec { field: *b.r.pick(&[4u8, 4, 4, 5]), val, of: Some(b.r.below(10) as u32) };
                b.one(Op::Damage { path: p.clone(), damage: vec![d] });
            }
            let op = b.sign(&p, "/sim/out/s", c, st);
            b.softly(op, size);
            b.softly(Op::Inspect { input: "/sim/out/s".into() }, size);
            if b.r.chance(2, 3) {
                let c2 = b.cred();
                let mut op = b.sign(&p, "/sim/out/t", c2, None);
                if let Op::Sign { input, .. } = &mut op {
                    *input = "/sim/out/s".into();
                }
                b.softly(op, size);
                b.one(Op::Inspect { input: "/sim/out/t".into() });
                let mut op = b.digest(&p);
                if let Op::Digest { input, .. } = &mut op {
                    *input = "/sim/out/t".into();
                }
                b.softly(op, size);
            }
            if b.r.chance(1, 3) {
                let l = b.lib_sign(&p, "/sim/out/u", Some(c), None);
                b.softly(l, size);
            }
        }
        "damage" => {
            let elf = b.r.chance(1, 3);
            let p = if elf { b.elf("a", false) } else { b.zip("a", false) };
            let c = b.cred();
            let st = b.stamp();
            let mut work = p.clone();
            if b.r.chance(5, 6) {
                let l = b.lib_sign(&p, "/sim/out/s", Some(c), st);
                b.one(l);
                work = "/sim/out/s".into();
            }
            if b.r.chance(1, 5) {
                b.one(Op::Extract { from: work.clone(), to: "/sim/out/block".into() });
                let d = b.damage(elf);
                if b.r.chance(5, 6) {
                    b.one(Op::Damage { path: "/sim/out/block".into(), damage: d });
                }
                b.softly(Op::Parse { input: "/sim/out/block".into() }, 20_000);
            } else {
                let d = b.damage(elf);
                b.one(Op::Damage { path: work.clone(), damage: d });
                b.after_damage(&work, "/sim/out/x");
            }
        }
        "concurrent" => {
            let p = b.any("a", false);
            let q = b.zip("b", false);
            let n = 2 + b.r.below(2);
            let same = b.r.chance(1, 2);
            let mut ops = vec![];
            b.occupy("/sim/out/o");
            for i in 0..n {
                let src = if b.r.chance(1, 2) { p.clone() } else { q.clone() };
                let out = if same { "/sim/out/o".to_string() } else { format!("/sim/out/o{i}") };
                let op = match b.r.below(8) {
                    0..=3 => {
                        let c = b.cred();
                        let st = b.stamp();
                        b.sign(&src, &out, c, st)
                    }
                    4 => b.dump(&src, &out),
                    5 => b.digest(&src),
                    6 => Op::Observe { path: "/sim/out/o".into(), times: 1 + b.r.below(6) as u32 },
                    _ => {
                        let c = b.cred();
                        Op::Load { cred: c, pw: Pw::Right, bytes: false }
                    }
                };
                ops.push(op);
            }
            let faults = if b.r.chance(1, 3) { soft(&mut b.r, 60_000) } else { vec![] };
            b.sc.steps.push(Step { ops, faults, ..Default::default() });
            if b.r.chance(1, 2) {
                b.one(Op::Inspect { input: "/sim/out/o".into() });
            }
        }
        "creds" => {
            for _ in 0..1 + b.r.below(3) {
                let mut c = gen_cred(&mut b.r);
                if b.r.chance(1, 3) {
                    c.flaw = Some(gen_flaw(&mut b.r, c.fmt));
                }
                b.sc.creds.push(c);
                let i = b.sc.creds.len() as u32 - 1;
                let pw = gen_pw(&mut b.r);
                let bytes = b.r.chance(1, 4);
                b.softly(Op::Load { cred: i, pw, bytes }, 4000);
            }
            if b.r.chance(1, 2) {
                let p = b.zip("a", false);
                let st = if b.sc.creds.len() > 1 { Some(1) } else { None };
                let pw = if b.r.chance(1, 2) { Pw::Right } else { gen_pw(&mut b.r) };
                let spw = if b.r.chance(1, 3) { Pw::Missing } else { gen_pw(&mut b.r) };
                if st.is_some() && b.r.chance(1, 2) {
                    // one password for both, or the stamp is signed with the same key store
                    if b.r.chance(1, 2) {
                        b.sc.creds[1] = b.sc.creds[0].clone();
                    } else {
                        b.sc.creds[1].password = b.sc.creds[0].password.clone();
                    }
                }
                let op = Op::Sign { input: p, output: "/sim/out/o".into(), v2: 0, stamp: st, sections: vec![], pw, spw, process: false };
                b.occupy("/sim/out/o");
                b.softly(op, 60_000);
            }
        }
        "info" => {
            let big = b.r.chance(1, 12);
            let p = if b.r.chance(1, 3) { b.elf("a", big) } else { b.zip("a", big) };
            let size = b.size(&p);
            let mut cur = p.clone();
            for k in 0..b.r.below(3) {
                let (c, st) = (b.cred(), b.stamp());
                let out = format!("/sim/out/i{k}");
                let op = match b.r.below(4) {
                    0 | 1 => b.sign(&cur, &out, c, st),
                    2 => b.lib_sign(&cur, &out, Some(c), st),
                    _ => b.lib_sign(&cur, &out, None, Some(c)),
                };
                b.one(op);
                cur = out;
            }
            let process = b.r.chance(1, 4);
            b.softly(Op::Info { input: cur.clone(), process }, size);
            if b.r.chance(1, 2) {
                if b.r.chance(1, 2) && !b.sc.creds.is_empty() {
                    let kind = *b.r.pick(&[
                        ForgeKind::AddSigner,
                        ForgeKind::AddSignerPair,
                        ForgeKind::AddStamp,
                        ForgeKind::BadSignatureToo,
                        ForgeKind::NoSignatures,
                        ForgeKind::OtherKeyVictimSpki,
                        ForgeKind::StaleSignature,
                    ]);
                    let c = b.r.below(b.sc.creds.len() as u64) as u32;
                    b.one(Op::Forge { path: cur.clone(), cred: c, kind });
                } else {
                    let e = b.is_elf(&p);
                    let d = b.damage(e);
                    b.one(Op::Damage { path: cur.clone(), damage: d });
                }
                let process = b.r.chance(1, 4);
                b.softly(Op::Info { input: cur, process }, size);
            }
        }
        "object" => {
            let big = b.r.chance(1, 8);
            let p = b.zip("a", big);
            let size = b.size(&p);
            let mut c = plain_cred(&mut b.r);
            c.chain.clear();
            b.sc.creds.push(c);
            let c = b.cred();
            let signed = b.r.chance(1, 2);
            let mut work = p.clone();
            if signed && b.r.chance(1, 6) {
                // a signing block of more than one page
                b.sc.creds[c as usize].leaf_pad = 3000 + b.r.below(8000) as u32;
            }
            if signed {
                let st = b.stamp();
                let l = b.lib_sign(&p, "/sim/out/s", Some(c), st);
                b.one(l);
                work = "/sim/out/s".into();
            }
            for _ in 0..1 + b.r.below(2) {
                let s = b.script(false);
                let raw = !signed && b.r.chance(1, 2);
                b.softly(Op::Object { input: work.clone(), raw, script: s }, size);
            }
        }
        "stamp" => {
            let p = b.any("a", false);
            let n = 2 + b.r.below(3);
            let mut cur = p.clone();
            for k in 0..n {
                if b.r.chance(1, 3) {
                    let t = *b.r.pick(&[0i64, -1, -5_000, 1, 1_700_000_000, 2_147_483_647, 4_294_967_296, 9_999_999_999, 253_402_300_800]);
                    b.one(Op::Clock { secs: t });
                }
                let out = format!("/sim/out/t{k}");
                let c = b.cred();
                let t = b.cred();
                let elf = b.is_elf(&p);
                let op = match b.r.below(5) {
                    0 => b.sign(&cur, &out, c, Some(t)),
                    1 => b.lib_sign(&cur, &out, Some(c), Some(t)),
                    2 => b.lib_sign(&cur, &out, None, Some(t)),
                    3 => b.sign(&cur, &out, c, None),
                    _ => Op::AddStamp { input: cur.clone(), output: out.clone(), stamp: t, timestamp: b.r.chance(2, 3), padding: b.r.chance(1, 2) },
                };
                let mut op = op;
                if elf {
                    // later files are ELF as well, whatever their path
                    if let Op::Sign { sections, .. } | Op::LibSign { sections, .. } = &mut op {
                        if b.r.chance(1, 2) {
                            sections.clear();
                        }
                    }
                }
                b.softly(op, 60_000);
                if b.r.chance(1, 4) {
                    // parts other tools put into the block
                    let (i, j) = (b.r.below(4) as u32, b.r.below(4) as u32);
                    let edit = match b.r.below(7) {
                        6 => PairEdit::Any { seed: b.r.next() >> 40 },
                        0 => PairEdit::Swap(i, j),
                        1 => PairEdit::Reverse,
                        2 => PairEdit::Dup(i),
                        _ => {
                            let id = *b.r.pick(&[0u32, 1, 0x1234_5679, 0xffff_ffff, 0x4272_6578, 0x7109_871b, 0x6dff_800c, 0xf053_68c0]);
                            PairEdit::Add { id, len: b.r.below(200) as u32, at: i }
                        }
                    };
                    b.one(Op::Damage { path: out.clone(), damage: vec![Damage::Pairs { edit }] });
                }
                if b.r.chance(3, 4) {
                    cur = out;
                }
            }
            b.one(Op::Inspect { input: cur });
        }
        "limits" => {
            let p = if b.r.chance(1, 4) { b.elf("a", false) } else { b.zip("a", false) };
            let mut c = CredSpec::simple(b.r.below(3), b.r.chance(1, 3));
            // leaf filler that brings the block near a multiple of 4096 or near the limit
            let goal = *b.r.pick(&[4096u32, 4096, 8192, 12288, 16384, 16384, 16384, 20480, 40000]);
            let d = b.r.below(120) as u32;
            c.leaf_pad = (goal + 60).saturating_sub(900 + d * 2 / 2);
            if b.r.chance(1, 4) {
                let n = 1 + b.r.below(3) as usize;
                c.chain = vec![c.leaf_pad / (n as u32 + 1); n];
                c.leaf_pad /= n as u32 + 1;
            }
            b.sc.creds.push(c);
            let st = if b.r.chance(1, 4) { Some(b.cred()) } else { None };
            let op = if b.r.chance(1, 2) { b.sign(&p, "/sim/out/o", 0, st) } else { b.lib_sign(&p, "/sim/out/o", Some(0), st) };
            b.occupy("/sim/out/o");
            b.one(op);
            b.one(Op::Inspect { input: "/sim/out/o".into() });
            if b.r.chance(1, 2) {
                b.one(Op::Extract { from: "/sim/out/o".into(), to: "/sim/out/block".into() });
                if b.r.chance(1, 2) {
                    let size = if b.r.chance(1, 2) {
                        *b.r.pick(&[16384u32, 16383, 16380, 16376, 12000, 8192])
                    } else {
                        // so that the padding has hardly any room before the next multiple of 4096
                        4096 * (1 + b.r.below(4) as u32) - 8 - 16 + b.r.below(22) as u32
                    };
                    let mut damage = vec![Damage::Pairs { edit: PairEdit::Fill { size } }];
                    if b.r.chance(1, 2) {
                        damage.insert(0, Damage::Pairs { edit: PairEdit::Any { seed: b.r.next() >> 40 } });
                    }
                    b.one(Op::Damage { path: "/sim/out/block".into(), damage });
                }
                b.one(Op::Parse { input: "/sim/out/block".into() });
            }
        }
        "dump" => {
            let big = b.r.chance(1, 3);
            let p = b.any("a", big);
            let size = b.size(&p);
            let mut work = p.clone();
            if b.r.chance(1, 2) {
                let c = b.cred();
                let l = b.lib_sign(&p, "/sim/out/s", Some(c), None);
                b.one(l);
                work = "/sim/out/s".into();
            }
            b.occupy("/sim/out/o");
            let sections = b.sections(&p);
            let output = if b.r.chance(1, 12) { work.clone() } else { "/sim/out/o".into() };
            b.softly(Op::Dump { input: work, output, sections, process: false }, size);
        }
        "process" => {
            let p = b.any("a", false);
            let c = b.cred();
            let bad = b.r.below(6);
            let mut work = p.clone();
            if bad == 0 {
                let l = b.lib_sign(&p, "/sim/out/s", Some(c), None);
                b.one(l);
                work = "/sim/out/s".into();
                let e = b.is_elf(&p);
                let d = b.damage(e);
                b.one(Op::Damage { path: work.clone(), damage: d });
            } else if bad == 1 {
                work = "/sim/in/none".into();
            }
            for _ in 0..1 + b.r.below(2) {
                let out = if b.r.chance(1, 10) { "/sim/nodir/o".to_string() } else { "/sim/out/o".into() };
                let mut op = match b.r.below(if cfg!(feature = "verify") { 5 } else { 4 }) {
                    0 | 1 => {
                        let st = b.stamp();
                        b.sign(&work, &out, c, st)
                    }
                    2 => b.dump(&work, &out),
                    3 => b.digest(&work),
                    _ if b.r.chance(1, 2) => Op::Info { input: work.clone(), process: true },
                    _ => Op::Verify { input: work.clone(), root: Root::Of(c), via: Via::Process },
                };
                match &mut op {
                    Op::Sign { process, pw, .. } => {
                        *process = true;
                        *pw = gen_pw(&mut b.r);
                    }
                    Op::Dump { process, .. } => *process = true,
                    Op::Digest { via, .. } => *via = Via::Process,
                    _ => {}
                }
                b.softly(op, 60_000);
                if b.r.chance(1, 4) {
                    // where it prints to fails or takes little at a time
                    let kind = match b.r.below(5) {
                        0 => FaultKind::Short(b.r.range(1, 20) as u32),
                        1 => FaultKind::Errno(libc::EINTR),
                        _ => FaultKind::Errno(*b.r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO])),
                    };
                    let count = if matches!(kind, FaultKind::Errno(libc::EINTR)) { 2 } else { u32::MAX };
                    let skip = if b.r.chance(1, 2) { 0 } else { b.r.below(12) as u32 };
                    let f = Fault { call: Call::Write, file: Some(crate::world::STDOUT.into()), actor: None, skip, count, kind, seen: 0 };
                    if let Some(s) = b.sc.steps.last_mut() {
                        s.faults.push(f);
                    }
                }
            }
        }
        "multi" => {
            // a longer history over a few files, everything mixed
            let files = [b.zip("a", false), b.any("b", false), b.elf("c", false)];
            for _ in 0..2 {
                b.cred();
            }
            let mut paths: Vec<String> = files.to_vec();
            paths.extend((0..3).map(|i| format!("/sim/out/m{i}")));
            for _ in 0..3 + b.r.below(6) {
                let i = b.r.pick(&paths).clone();
                let o = format!("/sim/out/m{}", b.r.below(3));
                let c = b.r.below(b.sc.creds.len() as u64) as u32;
                let st = if b.r.chance(1, 3) { Some(b.r.below(b.sc.creds.len() as u64) as u32) } else { None };
                let op = match b.r.below(11) {
                    0..=2 => b.sign(&i, &o, c, st),
                    3 => b.digest(&i),
                    4 => Op::Inspect { input: i },
                    5 => b.dump(&i, &o),
                    // the library leaves the output file to its caller: in place is not its business
                    6 if i != o => b.lib_sign(&i, &o, Some(c), st),
                    7 if i != o => Op::AddStamp { input: i, output: o, stamp: c, timestamp: b.r.chance(1, 2), padding: b.r.chance(1, 2) },
                    8 => {
                        let d = b.damage(b.r.clone().chance(1, 2));
                        let t = format!("/sim/out/m{}", b.r.below(3));
                        Op::Damage { path: t, damage: d }
                    }
                    9 => Op::Copy { from: i, to: o },
                    _ if cfg!(feature = "verify") && b.r.chance(1, 2) => Op::Info { input: i, process: false },
                    _ if cfg!(feature = "verify") => Op::Verify { input: i, root: Root::Of(c), via: *b.r.pick(&[Via::Cli, Via::Direct]) },
                    _ => {
                        let s = b.script(false);
                        Op::Object { input: i, raw: false, script: s }
                    }
                };
                if op.env() {
                    b.one(op);
                } else {
                    b.softly(op, 60_000);
                }
            }
        }
        "verify" | "forge" => {
            let p = b.zip("a", false);
            // a clock that fits in no 31 or 32 bits any more
            let far = b.r.chance(1, 8);
            if far {
                b.sc.clock = *b.r.pick(&[2_147_483_646, 2_200_000_000, 4_294_967_290, 5_000_000_000, 7_900_000_000]) + b.r.below(1000) as i64;
            }
            for k in 0..2 + b.r.below(2) {
                let mut c = CredSpec::simple(b.r.below(3) + 10 * k, b.r.chance(1, 3));
                let n = *b.r.pick(&[0usize, 1, 1, 2, 3, 5]);
                c.chain = vec![0; n];
                c.omit_root = n > 0 && b.r.chance(1, 2);
                if b.r.chance(1, 8) {
                    c.order = 1 + b.r.below(5) as u8;
                }
                let t = b.sc.clock;
                match b.r.below(6) {
                    0 => c.not_after = t - b.r.below(100) as i64,
                    1 => c.not_before = t + 1 + b.r.below(100) as i64,
                    2 => {
                        c.not_before = t - 50;
                        c.not_after = t + 50;
                    }
                    _ if far => c.not_after = 8_000_000_000,
                    _ => {}
                }
                c.code_signing = !b.r.chance(1, 8);
                c.ca_flag = !b.r.chance(1, 8);
                if k > 0 && b.r.chance(1, 2) {
                    // issued by the same authorities as the first one
                    let first = b.sc.creds[0].clone();
                    c.under = Some(first.seed);
                    c.chain = first.chain;
                    if b.r.chance(3, 4) {
                        (c.code_signing, c.ca_flag) = (first.code_signing, first.ca_flag);
                    }
                }
                if k > 0 && b.r.chance(1, 5) {
                    // other authorities of the same names
                    let first = &b.sc.creds[0];
                    c.mimic = Some(first.seed);
                    c.under = None;
                    c.chain = first.chain.clone();
                }
                b.sc.creds.push(c);
            }
            let nc = b.sc.creds.len() as u64;
            let v = b.r.below(nc) as u32;
            let st = match b.r.below(4) {
                0 => Some(v),
                1 => Some(b.r.below(nc) as u32),
                _ => None,
            };
            let pad = b.r.chance(1, 2);
            let op = if pad {
                b.lib_sign(&p, "/sim/out/s", Some(v), st)
            } else {
                b.sign(&p, "/sim/out/s", v, st)
            };
            b.softly(op, 60_000);
            let mut work = String::from("/sim/out/s");
            if family == "verify" && st.is_none() && b.r.chance(1, 4) {
                // stamped later, over a digest of the stamp's own kind
                let t = b.r.below(nc) as u32;
                work = "/sim/out/s2".into();
                let op = Op::AddStamp { input: "/sim/out/s".into(), output: work.clone(), stamp: t, timestamp: b.r.chance(1, 2), padding: b.r.chance(1, 2) };
                b.softly(op, 60_000);
            }
            if family == "forge" && b.r.chance(1, 4) {
                // what was said before must not count afterwards
                let via = *b.r.pick(&[Via::Cli, Via::Direct]);
                b.one(Op::Verify { input: work.clone(), root: Root::Of(v), via });
            }
            if family == "forge" {
                let f = (v + 1) % nc as u32;
                if b.r.chance(1, 3) {
                    // a forger whose certificates carry the victim's names
                    let name = b.sc.creds[v as usize].seed;
                    let n = b.sc.creds[v as usize].chain.len();
                    let c = &mut b.sc.creds[f as usize];
                    c.mimic = Some(name);
                    c.chain = vec![0; n];
                    c.code_signing = true;
                    c.ca_flag = true;
                }
                match b.r.below(4) {
                    0 => {
                        let d = b.damage(false);
                        b.one(Op::Damage { path: "/sim/out/s".into(), damage: d });
                    }
                    _ => {
                        let len = b.r.below(8) as u8;
                        let first = b.r.chance(1, 2);
                        let kind = *b.r.pick(&[
                            ForgeKind::NoSignatures,
                            ForgeKind::NoSigners,
                            ForgeKind::NoDigests,
                            ForgeKind::OtherKey,
                            ForgeKind::OtherKeyVictimSpki,
                            ForgeKind::OtherLeaf,
                            ForgeKind::ExtraDigest,
                            ForgeKind::UnknownAlgorithm,
                            ForgeKind::StaleSignature,
                            ForgeKind::SecondSigner,
                            ForgeKind::StampOnly,
                            ForgeKind::OwnChain,
                            ForgeKind::OwnChainAndTheirs,
                            ForgeKind::RootAsLeaf,
                            ForgeKind::OtherLeafVictimKey,
                            ForgeKind::AddSigner,
                            ForgeKind::AddSignerFirst,
                            ForgeKind::AddSignerPair,
                            ForgeKind::AddStamp,
                            ForgeKind::OldStamp,
                            ForgeKind::SameBlock,
                            ForgeKind::BadSignatureToo,
                            ForgeKind::SignerBadDigest { len },
                            ForgeKind::SignerNoDigest,
                            ForgeKind::SignerShortChain,
                            ForgeKind::SignerReversedChain,
                            ForgeKind::AddUnbound { first },
                            ForgeKind::AddNoCerts { first },
                            ForgeKind::AddNoDigest { first },
                            ForgeKind::AddStampUnbound,
                            ForgeKind::StampBadDigest,
                            ForgeKind::StampNoDigest,
                            ForgeKind::StampBadSignature,
                            ForgeKind::GraftLeaf,
                            ForgeKind::GraftRoot,
                        ]);
                        b.one(Op::Forge { path: "/sim/out/s".into(), cred: f, kind });
                    }
                }
            }
            for _ in 0..2 {
                let root = if b.r.chance(3, 4) { Root::Of(v) } else { Root::Of(b.r.below(nc) as u32) };
                let other = b.r.below(nc) as u32;
                let root = match b.r.below(16) {
                    0 => Root::Builtin,
                    1 => Root::Both(v, other),
                    2 => Root::Both(other, v),
                    3 if b.r.chance(1, 2) => Root::Empty,
                    _ => root,
                };
                let via = *b.r.pick(&[Via::Cli, Via::Direct]);
                let via = if matches!(root, Root::Of(_)) { via } else { Via::Direct };
                b.softly(Op::Verify { input: work.clone(), root, via }, 60_000);
                if b.r.chance(1, 4) {
                    let c = &b.sc.creds[v as usize];
                    let t = *b.r.pick(&[c.not_before - 1, c.not_before, c.not_after, c.not_after + 2, c.not_after - 1, 0, -10]);
                    b.one(Op::Clock { secs: t });
                }
            }
        }
        _ => {}
    }
    b.sc
}

/// Place faults into a history whose undisturbed run is known
pub fn inject(sc0: &Scenario, rep: &Report, seed: u64) -> Scenario {
    let mut sc = sc0.clone();
    let mut r = Rng::new(derive(&[seed, hash_str(&sc.family), 0x696e_6a]));
    let crashy = matches!(sc.family.as_str(), "crash");
    let conc = sc.family == "concurrent";
    let process = sc.family == "process";
    let mut cand: Vec<usize> = (0..sc.steps.len()).filter(|i| rep.step_calls.get(*i).is_some_and(|c| c.0 > 0)).collect();
    if crashy {
        let only: Vec<usize> = cand
            .iter()
            .copied()
            .filter(|i| sc.steps[*i].ops.iter().any(|o| matches!(o, Op::Sign { .. } | Op::Dump { .. })))
            .collect();
        if !only.is_empty() {
            cand = only;
        }
    }
    let huge = sc.files.values().any(|f| match f {
        FileSpec::Zip(z) => z.content > 64 * MIB,
        FileSpec::Elf(e) => e.secs.iter().any(|s| s.size > 64 * MIB),
        _ => false,
    });
    if cand.is_empty() || huge {
        return sc;
    }
    let mut redo: Vec<(usize, Vec<Op>)> = vec![];
    let rounds = 1 + r.below(2);
    for _ in 0..rounds {
        let i = *r.pick(&cand);
        let (calls, classes) = rep.step_calls[i].clone();
        let n = sc.steps[i].ops.len() as u64;
        let size = {
            let p = sc.steps[i].ops.iter().find_map(input).map(|s| s.to_string());
            match p.and_then(|p| sc.files.get(&p).cloned()) {
                Some(FileSpec::Zip(z)) => z.content + z.cd + z.comment as u64,
                _ => 60_000,
            }
        };
        let step = &mut sc.steps[i];
        if n > 1 {
            let k = 1 + r.below(10);
            let mut pre: Vec<(u64, u32)> = (0..k).map(|_| (1 + r.below(calls + 1), r.below(n) as u32)).collect();
            pre.sort();
            pre.dedup_by_key(|x| x.0);
            step.preempt = pre;
            step.first = r.below(n) as u32;
        }
        let w: [u32; 6] = if crashy {
            [2, 10, 6, 1, 0, 1]
        } else if conc {
            [3, 2, 3, 2, 0, 6]
        } else if process {
            [8, 0, 0, 3, 0, 1]
        } else {
            [8, 1, 1, 5, 4, 1]
        };
        match r.weighted(&w) {
            0 => {
                // hard fault, weighted by what the step calls
                let mut tot: Vec<(Call, u64)> = classes.iter().filter(|c| *c.0 != Call::Other).map(|(c, n)| (*c, *n)).collect();
                tot.sort();
                if tot.is_empty() {
                    continue;
                }
                let wts: Vec<u32> = tot.iter().map(|x| (x.1 as u32).clamp(2, 12)).collect();
                let (c, m) = tot[r.weighted(&wts)];
                let skip = r.below(m + 1) as u32;
                let e = hard_errno(&mut r, c);
                let count = if r.chance(1, 3) { u32::MAX } else { 1 };
                if c == Call::Write && r.chance(1, 3) {
                    step.faults.push(fault(Call::Write, skip, 1, FaultKind::Short(1 + r.below(3000) as u32)));
                    step.faults.push(fault(Call::Write, skip + 1, count, FaultKind::Errno(e)));
                } else {
                    step.faults.push(fault(c, skip, count, FaultKind::Errno(e)));
                }
                if r.chance(1, 2) {
                    redo.push((i, step.ops.clone()));
                }
            }
            1 => {
                let mut at = 1 + r.below(calls + 2);
                if r.chance(1, 4) && classes.contains_key(&Call::Sync) {
                    // the disk refuses to keep the data, and the power fails a little later
                    let e = hard_errno(&mut r, Call::Sync);
                    step.faults.push(fault(Call::Sync, 0, 1, FaultKind::Errno(e)));
                    at = (calls + 2).saturating_sub(r.below(8)).max(1);
                }
                step.crash = Some(Crash { at, kind: CrashKind::Power { seed: r.next() >> 32 } });
                if r.chance(2, 3) {
                    redo.push((i, step.ops.clone()));
                }
            }
            2 => {
                step.crash = Some(Crash { at: 1 + r.below(calls + 1), kind: CrashKind::Kill { actor: r.below(n) as u32 } });
                if r.chance(2, 3) {
                    redo.push((i, step.ops.clone()));
                }
            }
            3 => {
                let v = soft(&mut r, size);
                step.faults.extend(v);
            }
            4 => {
                // the input changes under the reader
                if n > 1 || step.crash.is_some() {
                    continue;
                }
                // one change only: a mixture of several versions cannot be told from a new file
                if step.events.iter().any(|e| matches!(e.kind, EventKind::Truncate { .. } | EventKind::Append { .. })) {
                    continue;
                }
                let op = &step.ops[0];
                let Some(p) = input(op) else { continue };
                if crate::exec::outputs(op).iter().any(|o| o == p) {
                    continue;
                }
                if !matches!(op, Op::Digest { .. } | Op::Dump { .. } | Op::Inspect { .. } | Op::Sign { .. }) {
                    continue;
                }
                let p = p.to_string();
                if matches!(sc.files.get(&p), Some(FileSpec::Link(_))) {
                    continue;
                }
                let len = size + 200;
                let at = 1 + r.below(calls + 1);
                let kind = if r.chance(2, 3) || matches!(op, Op::Sign { .. }) {
                    let cut = if r.chance(1, 2) { len.saturating_sub(1 + r.below(400)) } else { r.below(len) };
                    EventKind::Truncate { file: p, len: cut }
                } else {
                    EventKind::Append { file: p, len: 1 + r.below(100_000) }
                };
                step.events.push(Event { at, kind });
            }
            _ => {
                let t = *r.pick(&[0i64, -1, -100_000, 1, 1_700_000_000, 4_000_000_001, 253_402_300_799]);
                step.events.push(Event { at: 1 + r.below(calls + 1), kind: EventKind::SetClock { secs: t } });
            }
        }
    }
    redo.sort_by_key(|x| x.0);
    for (i, ops) in redo.into_iter().rev() {
        sc.steps.insert(i + 1, Step { ops, ..Default::default() });
    }
    sc
}
