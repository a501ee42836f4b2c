//! Executable reference model: an independent reading of the file formats.
//! Nothing here calls the code under test.
use sha2::{Digest, Sha256, Sha384, Sha512};

pub const MAGIC: &[u8; 16] = b"KSU Sig Block 42";
pub const V2_ID: u32 = 0x7109_871a;
pub const STAMP_ID: u32 = 0x6dff_800d;
pub const PAD_ID: u32 = 0x4272_6577;
pub const ELF_ID: u32 = 0x4c45_534b;
pub const TIME_ATTR: u32 = 0xe43c_5946;
pub const ALG256: u32 = 0x0201;
pub const ALG512: u32 = 0x0202;
pub const LIMIT: usize = 16 * 1024;
pub const CHUNK: usize = 1 << 20;

pub fn hash(alg: u32, d: &[u8]) -> Vec<u8> {
    match alg {
        ALG256 => Sha256::digest(d).to_vec(),
        ALG512 => Sha512::digest(d).to_vec(),
        _ => vec![],
    }
}

fn u16le(d: &[u8], o: usize) -> Option<usize> {
    Some(u16::from_le_bytes(d.get(o..o + 2)?.try_into().ok()?) as usize)
}
fn u32le(d: &[u8], o: usize) -> Option<usize> {
    Some(u32::from_le_bytes(d.get(o..o + 4)?.try_into().ok()?) as usize)
}
fn u64le(d: &[u8], o: usize) -> Option<u64> {
    Some(u64::from_le_bytes(d.get(o..o + 8)?.try_into().ok()?))
}

// ---------------------------------------------------------------- ZIP

#[derive(Clone, Debug, PartialEq)]
pub enum BlockState {
    /// no signing block in front of the central directory
    Absent,
    /// framing is intact: [start, cd)
    Framed { start: usize },
    /// the magic is there but the frame around it is not
    Damaged(String),
}

#[derive(Clone, Debug)]
pub struct ZipLayout {
    pub eocd: usize,
    pub cd: usize,
    pub eocd_end: usize,
    pub len: usize,
    pub block: BlockState,
}

impl ZipLayout {
    /// End of the entries: where the signing block starts, or the central directory
    pub fn content_end(&self) -> Option<usize> {
        match self.block {
            BlockState::Absent => Some(self.cd),
            BlockState::Framed { start } => Some(start),
            BlockState::Damaged(_) => None,
        }
    }
}

/// Where the parts of a ZIP are; `None` if there is no usable end record.
pub fn zip_layout(d: &[u8]) -> Option<ZipLayout> {
    if d.len() < 22 {
        return None;
    }
    let lo = d.len().saturating_sub(65535 + 22);
    let mut i = d.len() - 22;
    loop {
        if d[i..i + 4] == [0x50, 0x4b, 5, 6] {
            let c = u16le(d, i + 20)?;
            if i + 22 + c <= d.len() {
                let cd = u32le(d, i + 16)?;
                if cd > i {
                    return None;
                }
                return Some(ZipLayout {
                    eocd: i,
                    cd,
                    eocd_end: i + 22 + c,
                    len: d.len(),
                    block: block_before(d, cd),
                });
            }
        }
        if i == lo {
            return None;
        }
        i -= 1;
    }
}

fn block_before(d: &[u8], cd: usize) -> BlockState {
    if cd < 16 || &d[cd - 16..cd] != MAGIC {
        return BlockState::Absent;
    }
    if cd < 32 {
        return BlockState::Damaged("no room for a block".into());
    }
    let size = u64le(d, cd - 24).unwrap_or(0);
    if size < 24 || size > LIMIT as u64 {
        return BlockState::Damaged(format!("size field {size}"));
    }
    let Some(start) = cd.checked_sub(size as usize + 8) else {
        return BlockState::Damaged(format!("size field {size} reaches before the file"));
    };
    let first = u64le(d, start).unwrap_or(0);
    if first != size {
        return BlockState::Damaged(format!("size fields differ: {first} / {size}"));
    }
    BlockState::Framed { start }
}

/// Digest over three regions in chunks of 1 MiB, as documented for APK signature scheme v2
pub fn chunk_digest(regions: &[&[u8]], alg: u32) -> Vec<u8> {
    let mut n = 0u32;
    let mut all = vec![];
    for r in regions {
        for c in r.chunks(CHUNK) {
            let mut b = Vec::with_capacity(c.len() + 5);
            b.push(0xa5);
            b.extend((c.len() as u32).to_le_bytes());
            b.extend(c);
            all.extend(hash(alg, &b));
            n += 1;
        }
    }
    let mut b = vec![0x5a];
    b.extend(n.to_le_bytes());
    b.extend(all);
    hash(alg, &b)
}

/// Module digest; `None` where the file is not a module or its block is damaged
pub fn zip_digest(d: &[u8], alg: u32) -> Option<Vec<u8>> {
    let l = zip_layout(d)?;
    let end = l.content_end()?;
    Some(zip_digest_at(d, &l, end, alg))
}
pub fn zip_digest_raw(d: &[u8], alg: u32) -> Option<Vec<u8>> {
    let l = zip_layout(d)?;
    Some(zip_digest_at(d, &l, l.cd, alg))
}
fn zip_digest_at(d: &[u8], l: &ZipLayout, end: usize, alg: u32) -> Vec<u8> {
    let mut tail = d[l.eocd..].to_vec();
    tail[16..20].copy_from_slice(&(end as u32).to_le_bytes());
    chunk_digest(&[&d[..end], &d[l.cd..l.eocd], &tail], alg)
}

/// The module as it was before it was signed
pub fn zip_strip(d: &[u8]) -> Option<Vec<u8>> {
    let l = zip_layout(d)?;
    let end = l.content_end()?;
    let mut out = d[..end].to_vec();
    out.extend(&d[l.cd..]);
    let e = l.eocd - (l.cd - end);
    out[e + 16..e + 20].copy_from_slice(&(end as u32).to_le_bytes());
    Some(out)
}
pub fn zip_block(d: &[u8]) -> Option<&[u8]> {
    let l = zip_layout(d)?;
    match l.block {
        BlockState::Framed { start } => Some(&d[start..l.cd]),
        _ => None,
    }
}

// ---------------------------------------------------------------- ELF

#[derive(Clone, Debug, PartialEq)]
pub struct Sec {
    pub name: String,
    pub name_off: u64,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub off: u64,
    pub size: u64,
    pub link: u32,
    pub info: u32,
    pub align: u64,
    pub entsize: u64,
}
#[derive(Clone, Debug)]
pub struct ElfLayout {
    pub is64: bool,
    pub le: bool,
    pub shoff: u64,
    pub shnum: usize,
    pub shentsize: usize,
    pub shstrndx: usize,
    pub secs: Vec<Sec>,
}

pub struct Rd<'a> {
    d: &'a [u8],
    le: bool,
}
impl Rd<'_> {
    fn n(&self, o: u64, k: usize) -> Option<u64> {
        let o = usize::try_from(o).ok()?;
        let b = self.d.get(o..o.checked_add(k)?)?;
        let mut v = 0u64;
        for i in 0..k {
            let x = if self.le { b[k - 1 - i] } else { b[i] };
            v = (v << 8) | x as u64;
        }
        Some(v)
    }
}

pub fn elf_layout(d: &[u8]) -> Option<ElfLayout> {
    if d.len() < 52 || d[..4] != [0x7f, b'E', b'L', b'F'] {
        return None;
    }
    let is64 = match d[4] {
        1 => false,
        2 => true,
        _ => return None,
    };
    let le = match d[5] {
        1 => true,
        2 => false,
        _ => return None,
    };
    let r = Rd { d, le };
    let (shoff, base) = if is64 { (r.n(0x28, 8)?, 0x34) } else { (r.n(0x20, 4)?, 0x28) };
    let shentsize = r.n(base + 6, 2)? as usize;
    let shnum = r.n(base + 8, 2)? as usize;
    let shstrndx = r.n(base + 10, 2)? as usize;
    let mut secs = vec![];
    let want = if is64 { 64 } else { 40 };
    if shnum > 0 && shentsize != want {
        return None;
    }
    for i in 0..shnum {
        let o = shoff.checked_add((i * want) as u64)?;
        let s = if is64 {
            Sec {
                name: String::new(),
                name_off: r.n(o, 4)?,
                ty: r.n(o + 4, 4)? as u32,
                flags: r.n(o + 8, 8)?,
                addr: r.n(o + 16, 8)?,
                off: r.n(o + 24, 8)?,
                size: r.n(o + 32, 8)?,
                link: r.n(o + 40, 4)? as u32,
                info: r.n(o + 44, 4)? as u32,
                align: r.n(o + 48, 8)?,
                entsize: r.n(o + 56, 8)?,
            }
        } else {
            Sec {
                name: String::new(),
                name_off: r.n(o, 4)?,
                ty: r.n(o + 4, 4)? as u32,
                flags: r.n(o + 8, 4)?,
                addr: r.n(o + 12, 4)?,
                off: r.n(o + 16, 4)?,
                size: r.n(o + 20, 4)?,
                link: r.n(o + 24, 4)? as u32,
                info: r.n(o + 28, 4)? as u32,
                align: r.n(o + 32, 4)?,
                entsize: r.n(o + 36, 4)?,
            }
        };
        secs.push(s);
    }
    if let Some(st) = secs.get(shstrndx).cloned() {
        let a = usize::try_from(st.off).ok()?;
        let b = a.checked_add(usize::try_from(st.size).ok()?)?;
        if let Some(tab) = d.get(a..b) {
            for s in &mut secs {
                if let Some(t) = tab.get(s.name_off as usize..) {
                    let e = t.iter().position(|c| *c == 0).unwrap_or(t.len());
                    s.name = String::from_utf8_lossy(&t[..e]).to_string();
                }
            }
        }
    }
    Some(ElfLayout { is64, le, shoff, shnum, shentsize, shstrndx, secs })
}

/// What the named sections of an ELF file resolve to
pub fn elf_sections(d: &[u8], names: &[String]) -> Result<Vec<(String, u64, u64)>, String> {
    let l = elf_layout(d).ok_or("not an ELF file")?;
    let mut out = vec![];
    if names.iter().any(|n| n == ".ksu_sign") {
        return Err("the signature section cannot be covered by the signature".into());
    }
    for n in names {
        let s = l.secs.iter().find(|s| s.name == *n).ok_or(format!("no section {n}"))?;
        if s.ty == 8 {
            return Err(format!("section {n} has no bytes"));
        }
        if s.size == 0 {
            return Err(format!("section {n} is empty"));
        }
        if s.off < if l.is64 { 64 } else { 52 } {
            return Err(format!("section {n} covers the ELF header, which signing changes"));
        }
        out.push((n.clone(), s.off, s.size));
    }
    if out.is_empty() {
        return Err("no sections".into());
    }
    out.sort_by_key(|s| s.1);
    Ok(out)
}
pub fn elf_digest(d: &[u8], names: &[String], alg: u32) -> Result<Vec<u8>, String> {
    let secs = elf_sections(d, names)?;
    let mut regs = vec![];
    for (n, o, s) in &secs {
        let e = o.checked_add(*s).ok_or("overflow")?;
        regs.push(d.get(*o as usize..e as usize).ok_or(format!("section {n} is outside the file"))?);
    }
    Ok(chunk_digest(&regs, alg))
}
pub fn elf_block(d: &[u8]) -> Option<Vec<u8>> {
    let l = elf_layout(d)?;
    let s = l.secs.iter().find(|s| s.name == ".ksu_sign")?;
    d.get(s.off as usize..s.off.checked_add(s.size)? as usize).map(|x| x.to_vec())
}

/// Does `out` contain everything `inp` contained, plus exactly one signature section?
pub fn elf_preserved(inp: &[u8], out: &[u8]) -> Result<(), String> {
    let a = elf_layout(inp).ok_or("input is not ELF")?;
    let b = elf_layout(out).ok_or("output is not a readable ELF file")?;
    if a.is64 != b.is64 || a.le != b.le {
        return Err("class or byte order changed".into());
    }
    if out.len() < inp.len() {
        return Err(format!("output is shorter than the input: {} < {}", out.len(), inp.len()));
    }
    // header fields that locate the section table may change, nothing else of the input may
    let free: &[(usize, usize)] =
        if a.is64 { &[(0x28, 0x30), (0x3a, 0x40)] } else { &[(0x20, 0x24), (0x2e, 0x34)] };
    for (i, (x, y)) in inp.iter().zip(out).enumerate() {
        if x != y && !free.iter().any(|(p, q)| i >= *p && i < *q) {
            return Err(format!("byte {i} of the input changed from {x:#x} to {y:#x}"));
        }
    }
    if b.shstrndx != a.shstrndx {
        return Err(format!("name table index changed {} -> {}", a.shstrndx, b.shstrndx));
    }
    let had = a.secs.iter().position(|s| s.name == ".ksu_sign");
    let want = a.secs.len() + if had.is_some() { 0 } else { 1 };
    if b.secs.len() != want {
        return Err(format!("{} sections, expected {want}", b.secs.len()));
    }
    let ours: Vec<usize> =
        b.secs.iter().enumerate().filter(|(_, s)| s.name == ".ksu_sign").map(|(i, _)| i).collect();
    if ours.len() != 1 {
        return Err(format!("{} signature sections", ours.len()));
    }
    let k = ours[0];
    for (i, x) in a.secs.iter().enumerate() {
        if had == Some(i) {
            continue;
        }
        // sections keep their order around the signature section
        let j = match had {
            Some(_) => i,
            None if i >= k => i + 1,
            None => i,
        };
        let y = &b.secs[j];
        if i == a.shstrndx {
            if (x.ty, x.flags, x.addr, x.link, x.info, x.align, x.entsize, &x.name)
                != (y.ty, y.flags, y.addr, y.link, y.info, y.align, y.entsize, &y.name)
            {
                return Err("name table header changed".into());
            }
            let old = inp.get(x.off as usize..x.off.saturating_add(x.size) as usize).ok_or("name table outside")?;
            let new = out
                .get(y.off as usize..(y.off.saturating_add(y.size)) as usize)
                .ok_or("new name table outside the file")?;
            if !new.starts_with(old) {
                return Err("name table lost names".into());
            }
            continue;
        }
        if x != y {
            return Err(format!("section {i} ({}) changed: {x:?} -> {y:?}", x.name));
        }
    }
    let s = &b.secs[k];
    let (so, se) = (s.off, s.off.checked_add(s.size).ok_or("overflow")?);
    if se > out.len() as u64 || s.size == 0 {
        return Err("signature section outside the file".into());
    }
    if so < inp.len() as u64 {
        return Err("signature section overlaps input bytes".into());
    }
    let tab = (b.shoff, b.shoff.saturating_add((b.secs.len() * b.shentsize) as u64));
    let st = &b.secs[b.shstrndx];
    for (p, q) in [tab, (st.off, st.off.saturating_add(st.size))] {
        if p < se && so < q {
            return Err("signature section overlaps a table".into());
        }
    }
    if s.align > 1 && so % s.align != 0 {
        return Err(format!("signature section at {so} is not aligned to {}", s.align));
    }
    if s.ty == 8 {
        return Err("signature section has no bytes in the file".into());
    }
    if b.shoff < inp.len() as u64 && b.shoff != a.shoff {
        return Err("section table written over input bytes".into());
    }
    Ok(())
}

// ---------------------------------------------------------------- signing block

#[derive(Clone, Debug, Default)]
pub struct RefSigner {
    /// the signed bytes (without their length)
    pub signed: Vec<u8>,
    pub digests: Vec<(u32, Vec<u8>)>,
    pub certs: Vec<Vec<u8>>,
    pub attrs: Vec<(u32, Vec<u8>)>,
    pub sigs: Vec<(u32, Vec<u8>)>,
    pub key: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct RefBlock {
    pub pairs: Vec<(u32, Vec<u8>)>,
    pub v2: Vec<Vec<RefSigner>>,
    pub stamps: Vec<RefSigner>,
    pub elf: Vec<Vec<(String, u64, u64)>>,
}

struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.0.len() {
            return Err(format!("length {n} exceeds the {} bytes left", self.0.len()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().map_err(|_| "u32")?))
    }
    fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().map_err(|_| "u64")?))
    }
    /// length-prefixed
    fn lp(&mut self) -> Result<&'a [u8], String> {
        let n = self.u32()? as usize;
        self.take(n)
    }
    fn done(&self) -> bool {
        self.0.is_empty()
    }
    fn rest(&self, loose: bool) -> bool {
        self.0.is_empty() || loose && self.0.iter().all(|b| *b == 0)
    }
}

/// `pad`: zeros may follow the signed attributes; `loose`: zeros may follow anything
fn parse_signer(d: &[u8], pad: bool, loose: bool) -> Result<RefSigner, String> {
    let mut c = Cur(d);
    let signed = c.lp()?;
    let sigs = c.lp()?;
    let key = c.lp()?;
    if !c.rest(loose) {
        return Err("bytes after the public key".into());
    }
    let mut s = RefSigner { signed: signed.to_vec(), key: key.to_vec(), ..Default::default() };
    let mut c = Cur(signed);
    let (mut dg, mut ce, mut at) = (Cur(c.lp()?), Cur(c.lp()?), Cur(c.lp()?));
    if c.0.iter().any(|b| *b != 0) || !loose && c.0.len() > if pad { 4 } else { 0 } {
        return Err("unexpected bytes after the signed attributes".into());
    }
    while !dg.done() {
        let mut e = Cur(dg.lp()?);
        let a = e.u32()?;
        s.digests.push((a, e.lp()?.to_vec()));
        if !e.rest(loose) {
            return Err("bytes after a digest".into());
        }
    }
    while !ce.done() {
        s.certs.push(ce.lp()?.to_vec());
    }
    while !at.done() {
        let mut e = Cur(at.lp()?);
        let a = e.u32()?;
        s.attrs.push((a, e.0.to_vec()));
    }
    let mut sg = Cur(sigs);
    while !sg.done() {
        let mut e = Cur(sg.lp()?);
        let a = e.u32()?;
        s.sigs.push((a, e.lp()?.to_vec()));
        if !e.rest(loose) {
            return Err("bytes after a signature".into());
        }
    }
    Ok(s)
}

/// Parse a whole block strictly: every length accounts for every byte.
pub fn parse_block(b: &[u8]) -> Result<RefBlock, String> {
    parse_block_as(b, false)
}
/// A framed block whose parts do not account for all of it, not even with zeros behind them
pub fn broken_block(b: &[u8]) -> Option<String> {
    parse_block_as(b, true).err()
}
fn framed(b: &[u8]) -> bool {
    b.len() >= 32 && &b[b.len() - 16..] == MAGIC && u64le(b, 0) == Some(b.len() as u64 - 8) && u64le(b, b.len() - 24) == u64le(b, 0)
}
/// framed, but broken inside
pub fn broken_inside(b: &[u8]) -> Option<String> {
    framed(b).then(|| broken_block(b)).flatten()
}
fn parse_block_as(b: &[u8], loose: bool) -> Result<RefBlock, String> {
    if b.len() < 32 {
        return Err(format!("block of {} bytes", b.len()));
    }
    if &b[b.len() - 16..] != MAGIC {
        return Err("no magic at the end".into());
    }
    let a = u64le(b, 0).unwrap_or(0);
    let z = u64le(b, b.len() - 24).unwrap_or(0);
    if a != z {
        return Err(format!("size fields differ: {a} / {z}"));
    }
    if a as usize + 8 != b.len() {
        return Err(format!("size field {a} but the block has {} bytes", b.len()));
    }
    if a as usize > LIMIT {
        return Err(format!("size field {a} is above the limit {LIMIT}"));
    }
    let mut c = Cur(&b[8..b.len() - 24]);
    let mut r = RefBlock::default();
    while !c.done() {
        let n = c.u64()?;
        if n < 4 {
            return Err(format!("pair of {n} bytes"));
        }
        if n > LIMIT as u64 {
            return Err(format!("pair of {n} bytes is above the limit"));
        }
        let mut e = Cur(c.take(n as usize)?);
        let id = e.u32()?;
        let val = e.0;
        match id {
            V2_ID => {
                let mut v = Cur(val);
                let mut ss = Cur(v.lp()?);
                if !v.rest(loose) {
                    return Err("bytes after the signers".into());
                }
                let mut list = vec![];
                while !ss.done() {
                    list.push(parse_signer(ss.lp()?, true, loose)?);
                }
                r.v2.push(list);
            }
            STAMP_ID => {
                let mut v = Cur(val);
                let s = parse_signer(v.lp()?, false, loose)?;
                if !v.rest(loose) {
                    return Err("bytes after the stamp".into());
                }
                r.stamps.push(s);
            }
            ELF_ID => {
                let mut v = Cur(val);
                let n = v.u32()?;
                let mut list = vec![];
                for _ in 0..n {
                    let k = u16::from_le_bytes(v.take(2)?.try_into().map_err(|_| "u16")?) as usize;
                    let name = String::from_utf8(v.take(k)?.to_vec()).map_err(|e| e.to_string())?;
                    let o = v.u64()?;
                    list.push((name, o, v.u64()?));
                }
                if !v.rest(loose) {
                    return Err("bytes after the section list".into());
                }
                r.elf.push(list);
            }
            _ => {}
        }
        r.pairs.push((id, val.to_vec()));
    }
    Ok(r)
}

/// One ECDSA signature, checked with the documented algorithm binding
pub fn verify_sig(alg: u32, key: &[u8], data: &[u8], sig: &[u8]) -> Result<(), String> {
    match alg {
        ALG256 => {
            use p256::ecdsa::{signature::hazmat::PrehashVerifier, Signature, VerifyingKey};
            use p256::pkcs8::DecodePublicKey;
            let k = VerifyingKey::from_public_key_der(key).map_err(|_| "not a P-256 key")?;
            let s = Signature::from_der(sig).map_err(|_| "not a DER signature")?;
            let h = Sha256::digest(Sha256::digest(data));
            k.verify_prehash(&h, &s).map_err(|_| "signature does not verify".to_string())
        }
        ALG512 => {
            use p384::ecdsa::{signature::hazmat::PrehashVerifier, Signature, VerifyingKey};
            use p384::pkcs8::DecodePublicKey;
            let k = VerifyingKey::from_public_key_der(key).map_err(|_| "not a P-384 key")?;
            let s = Signature::from_der(sig).map_err(|_| "not a DER signature")?;
            let h = Sha384::digest(Sha512::digest(data));
            k.verify_prehash(&h, &s).map_err(|_| "signature does not verify".to_string())
        }
        a => Err(format!("unknown algorithm {a:#x}")),
    }
}

pub fn verify_signer(s: &RefSigner) -> Result<(), String> {
    if s.sigs.is_empty() {
        return Err("no signature".into());
    }
    for (a, sig) in &s.sigs {
        verify_sig(*a, &s.key, &s.signed, sig)?;
    }
    Ok(())
}

pub fn short(b: &[u8]) -> String {
    let h: String = b.iter().take(12).map(|x| format!("{x:02x}")).collect();
    format!("{h}..({} bytes)", b.len())
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
