//! File contents from small specifications (so that a replay file stays small and shrinkable).
use crate::refimpl;
use crate::rng::{derive, Rng};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ZipSpec {
    pub seed: u64,
    /// number of entries
    pub entries: u32,
    /// exact size of the entries region (headers included); rounded up to what the headers need
    pub content: u64,
    /// exact size of the central directory; rounded up to what the headers need
    pub cd: u64,
    pub comment: u32,
    /// bytes after the end record
    pub trailing: u32,
    pub decoys: Vec<Decoy>,
    /// disk numbers in the end record
    #[serde(default)]
    pub disks: (u16, u16),
}

/// Bytes inside the payload that look like something else
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Decoy {
    /// the magic somewhere in the entries
    MagicInContent { from_end: u32 },
    /// a whole well-framed block in the entries, not at their end
    BlockInContent { from_end: u32, size: u32 },
    /// the magic in the central directory / comment
    MagicInCd,
    MagicInComment,
    /// an end-record signature in the comment whose length field cannot fit
    EocdInComment,
    /// same, in the trailing bytes
    EocdInTrailing,
    /// an end-record signature inside the central directory
    EocdInCd,
    /// a prefix of the magic right before the central directory
    HalfMagicAtEnd,
}

fn overlay(d: &mut [u8], at: usize, b: &[u8]) {
    if at + b.len() <= d.len() {
        d[at..at + b.len()].copy_from_slice(b);
    }
}

pub fn zip(s: &ZipSpec) -> Vec<u8> {
    let mut r = Rng::new(derive(&[s.seed, 0x7a69_70]));
    let n = s.entries as usize;
    let names: Vec<String> = (0..n).map(|i| format!("e{i:04}.bin")).collect();
    // sizes
    let hdr: usize = names.iter().map(|x| 30 + x.len()).sum();
    let want = (s.content as usize).max(hdr);
    let mut data_total = want - hdr;
    let mut out = Vec::with_capacity(want + s.cd as usize + s.comment as usize + 64);
    let mut offs = vec![];
    let mut sizes = vec![];
    for (i, nm) in names.iter().enumerate() {
        let left = n - i;
        let sz = if left == 1 { data_total } else { r.below((data_total / left * 2) as u64 + 1) as usize };
        let sz = sz.min(data_total);
        data_total -= sz;
        offs.push(out.len());
        sizes.push(sz);
        out.extend([0x50, 0x4b, 3, 4, 10, 0, 0, 0, 0, 0, 0, 0, 0x21, 0x50]);
        out.extend((derive(&[s.seed, i as u64]) as u32).to_le_bytes());
        out.extend((sz as u32).to_le_bytes());
        out.extend((sz as u32).to_le_bytes());
        out.extend((nm.len() as u16).to_le_bytes());
        out.extend([0, 0]);
        out.extend(nm.as_bytes());
        let start = out.len();
        out.resize(start + sz, 0);
        r.fill(&mut out[start..]);
    }
    if n == 0 {
        // an empty archive may still have bytes in front (self-extractor style)
        let start = out.len();
        out.resize(start + s.content as usize, 0);
        r.fill(&mut out[start..]);
    }
    for d in &s.decoys {
        let len = out.len();
        match d {
            Decoy::MagicInContent { from_end } => {
                if let Some(at) = len.checked_sub(16 + 1 + *from_end as usize) {
                    if at >= 64 {
                        overlay(&mut out, at, refimpl::MAGIC);
                    }
                }
            }
            Decoy::BlockInContent { from_end, size } => {
                let size = (*size as usize).clamp(24, 16384);
                let mut b = vec![0u8; size + 8];
                b[..8].copy_from_slice(&(size as u64).to_le_bytes());
                let e = b.len();
                b[e - 24..e - 16].copy_from_slice(&(size as u64).to_le_bytes());
                b[e - 16..].copy_from_slice(refimpl::MAGIC);
                if size > 24 + 12 {
                    // one padding pair that fills the block
                    let p = size - 24 - 8;
                    b[8..16].copy_from_slice(&(p as u64).to_le_bytes());
                    b[16..20].copy_from_slice(&refimpl::PAD_ID.to_le_bytes());
                }
                if let Some(at) = len.checked_sub(e + 1 + *from_end as usize) {
                    if at >= 64 {
                        overlay(&mut out, at, &b);
                    }
                }
            }
            Decoy::HalfMagicAtEnd => {
                if len > 128 {
                    overlay(&mut out, len - 15, &refimpl::MAGIC[..15]);
                }
            }
            _ => {}
        }
    }
    // an unsigned archive must not end in the magic by construction
    let cd_off = out.len();
    let base: usize = names.iter().map(|x| 46 + x.len()).sum();
    let mut extra = (s.cd as usize).saturating_sub(base);
    for (i, nm) in names.iter().enumerate() {
        let c = extra.min(65535);
        extra -= c;
        out.extend([0x50, 0x4b, 1, 2, 10, 0, 10, 0, 0, 0, 0, 0, 0, 0, 0x21, 0x50]);
        out.extend((derive(&[s.seed, i as u64]) as u32).to_le_bytes());
        out.extend((sizes[i] as u32).to_le_bytes());
        out.extend((sizes[i] as u32).to_le_bytes());
        out.extend((nm.len() as u16).to_le_bytes());
        out.extend([0, 0]);
        out.extend((c as u16).to_le_bytes());
        out.extend([0, 0, 0, 0, 0, 0, 0, 0]);
        out.extend((offs[i] as u32).to_le_bytes());
        out.extend(nm.as_bytes());
        let start = out.len();
        out.resize(start + c, 0);
        r.fill(&mut out[start..]);
    }
    let eocd = out.len();
    if s.decoys.contains(&Decoy::MagicInCd) && eocd - cd_off > 100 {
        overlay(&mut out, eocd - 40, refimpl::MAGIC);
    }
    if s.decoys.contains(&Decoy::EocdInCd) && eocd - cd_off > 100 {
        overlay(&mut out, eocd - 50, &[0x50, 0x4b, 5, 6]);
    }
    out.extend([0x50, 0x4b, 5, 6]);
    out.extend(s.disks.0.to_le_bytes());
    out.extend(s.disks.1.to_le_bytes());
    out.extend((n as u16).to_le_bytes());
    out.extend((n as u16).to_le_bytes());
    out.extend(((eocd - cd_off) as u32).to_le_bytes());
    out.extend((cd_off as u32).to_le_bytes());
    let c = s.comment.min(65535) as usize;
    out.extend((c as u16).to_le_bytes());
    let start = out.len();
    // text: it cannot contain an end record by accident
    out.extend((0..c).map(|i| b'a' + ((i as u64 * 7 + s.seed) % 23) as u8));
    if s.decoys.contains(&Decoy::MagicInComment) && c > 40 {
        overlay(&mut out, start + c / 2, refimpl::MAGIC);
    }
    if s.decoys.contains(&Decoy::EocdInComment) && c > 60 {
        let at = start + c / 3;
        overlay(&mut out, at, &[0x50, 0x4b, 5, 6]);
        // a length that cannot fit
        overlay(&mut out, at + 20, &[0xff, 0xff]);
    }
    let tstart = out.len();
    out.extend((0..s.trailing).map(|i| b'A' + (i % 26) as u8));
    if s.decoys.contains(&Decoy::EocdInTrailing) && s.trailing > 30 {
        overlay(&mut out, tstart + 2, &[0x50, 0x4b, 5, 6]);
        overlay(&mut out, tstart + 22, &[0xff, 0xff]);
    }
    out
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SecSpec {
    pub name: String,
    pub size: u64,
    pub nobits: bool,
    pub align: u32,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ElfSpec {
    pub seed: u64,
    pub is64: bool,
    pub le: bool,
    /// in file order; the null section comes first in the table, the name table last or earlier
    pub secs: Vec<SecSpec>,
    /// table order differs from file order
    pub shuffle: bool,
    /// index (among the sections) at which the name table stands in the section table
    pub strtab_at: u32,
    /// the section table precedes the section data
    pub table_first: bool,
    pub phdrs: u32,
    pub trailing: u32,
    pub str_align: u64,
    /// headers with links, flags and types as they come, names that end in the same way share their bytes
    #[serde(default)]
    pub rich: bool,
    /// so many further small sections
    #[serde(default)]
    pub many: u32,
    /// so many bytes in the name table that belong to no section, in front of the names
    #[serde(default)]
    pub gap: u32,
}

fn put(d: &mut Vec<u8>, v: u64, k: usize, le: bool) {
    let b = v.to_le_bytes();
    if le {
        d.extend(&b[..k]);
    } else {
        d.extend(b[..k].iter().rev());
    }
}

pub fn elf(s: &ElfSpec) -> Vec<u8> {
    if s.many > 0 {
        let mut x = s.clone();
        x.many = 0;
        x.secs.extend((0..s.many).map(|i| SecSpec { name: format!(".more{i}"), size: i as u64 % 5, nobits: false, align: 1 }));
        return elf(&x);
    }
    let mut r = Rng::new(derive(&[s.seed, 0x65_6c_66]));
    let (eh, ph, sh) = if s.is64 { (64usize, 56usize, 64usize) } else { (52, 32, 40) };
    let a = if s.is64 { 8 } else { 4 };
    let nsec = s.secs.len() + 2;
    let mut pos = eh + ph * s.phdrs as usize;
    let up = |p: usize, al: usize| if al <= 1 { p } else { p.div_ceil(al) * al };
    let mut shoff = 0;
    if s.table_first {
        shoff = up(pos, a);
        pos = shoff + nsec * sh;
    }
    // place the data
    let mut place = vec![];
    for x in &s.secs {
        pos = up(pos, x.align.clamp(1, 4096) as usize);
        place.push(pos);
        if !x.nobits {
            pos += x.size as usize;
        }
    }
    // names
    let mut tab = vec![0u8];
    if s.gap > 0 {
        tab.resize(1 + s.gap as usize, b'g');
        tab.push(0);
    }
    let mut noff = vec![];
    let mut name_at = |tab: &mut Vec<u8>, name: &str| {
        let mut n = name.as_bytes().to_vec();
        n.push(0);
        if s.rich {
            if let Some(i) = tab.windows(n.len()).position(|w| w == n) {
                return i;
            }
        }
        tab.extend(&n);
        tab.len() - n.len()
    };
    if s.rich {
        // longest first, so that the shorter ones find their bytes
        let mut by: Vec<&str> = s.secs.iter().map(|x| x.name.as_str()).collect();
        by.sort_by_key(|n| std::cmp::Reverse(n.len()));
        for n in by {
            name_at(&mut tab, n);
        }
    }
    for x in &s.secs {
        noff.push(name_at(&mut tab, &x.name));
    }
    let strname = name_at(&mut tab, ".shstrtab");
    let stroff = pos;
    pos += tab.len();
    if !s.table_first {
        shoff = up(pos, a);
        pos = shoff + nsec * sh;
    }
    let mut d = vec![0u8; pos];
    // header
    let mut h = vec![0x7f, b'E', b'L', b'F', if s.is64 { 2 } else { 1 }, if s.le { 1 } else { 2 }, 1, 0];
    h.extend([0u8; 8]);
    let w = if s.is64 { 8 } else { 4 };
    let le = s.le;
    put(&mut h, 3, 2, le);
    put(&mut h, if s.is64 { 183 } else { 40 }, 2, le);
    put(&mut h, 1, 4, le);
    put(&mut h, 0x1000, w, le);
    put(&mut h, if s.phdrs > 0 { eh as u64 } else { 0 }, w, le);
    put(&mut h, shoff as u64, w, le);
    put(&mut h, 0x0500_0200, 4, le);
    put(&mut h, eh as u64, 2, le);
    put(&mut h, ph as u64, 2, le);
    put(&mut h, s.phdrs as u64, 2, le);
    put(&mut h, sh as u64, 2, le);
    put(&mut h, nsec as u64, 2, le);
    // section order
    let mut order: Vec<usize> = (0..s.secs.len()).collect();
    if s.shuffle {
        for i in (1..order.len()).rev() {
            let j = r.below(i as u64 + 1) as usize;
            order.swap(i, j);
        }
    }
    let strpos = 1 + (s.strtab_at as usize).min(s.secs.len());
    put(&mut h, strpos as u64, 2, le);
    d[..eh].copy_from_slice(&h);
    for i in 0..s.phdrs as usize {
        let mut p = vec![];
        put(&mut p, 1, 4, le);
        if s.is64 {
            put(&mut p, 5, 4, le);
        }
        for v in [0u64, 0x1000 * i as u64, 0x1000 * i as u64, eh as u64, eh as u64] {
            put(&mut p, v, w, le);
        }
        if !s.is64 {
            put(&mut p, 5, 4, le);
        }
        put(&mut p, 0x1000, w, le);
        d[eh + i * ph..eh + i * ph + p.len()].copy_from_slice(&p);
    }
    for (i, x) in s.secs.iter().enumerate() {
        if !x.nobits {
            r.fill(&mut d[place[i]..place[i] + x.size as usize]);
        }
    }
    d[stroff..stroff + tab.len()].copy_from_slice(&tab);
    // table
    let mut rows: Vec<Vec<u8>> = vec![vec![0; sh]];
    let mut q = Rng::new(derive(&[s.seed, 0x72_69_63_68]));
    let mut row = |name: u64, ty: u64, fl: u64, addr: u64, off: u64, size: u64, align: u64| {
        let mut v = vec![];
        let (mut ty, mut fl, mut addr, mut link, mut info, mut ent) = (ty, fl, addr, 0, 0, 0);
        if s.rich {
            if ty == 1 {
                ty = *q.pick(&[1u64, 1, 1, 7, 14, 15, 0x8000_0001, 0xffff_fffe]);
            }
            let m = if s.is64 { u64::MAX } else { 0xffff_ffff };
            fl = q.next() & if q.chance(1, 2) { 0xff } else { m & !0x800 };
            addr = if q.chance(1, 2) { addr } else { q.next() & m };
            link = q.below(1 << 32);
            info = q.below(1 << 32);
            ent = q.next() & if q.chance(1, 2) { 0x3f } else { m };
        }
        put(&mut v, name, 4, le);
        put(&mut v, ty, 4, le);
        for q in [fl, addr, off, size] {
            put(&mut v, q, w, le);
        }
        put(&mut v, link, 4, le);
        put(&mut v, info, 4, le);
        put(&mut v, align, w, le);
        put(&mut v, ent, w, le);
        v
    };
    let strrow = row(strname as u64, 3, 0, 0, stroff as u64, tab.len() as u64, s.str_align);
    for i in &order {
        let x = &s.secs[*i];
        if rows.len() == strpos {
            rows.push(strrow.clone());
        }
        rows.push(row(
            noff[*i] as u64,
            if x.nobits { 8 } else { 1 },
            6,
            0x10000 + place[*i] as u64,
            place[*i] as u64,
            x.size,
            x.align as u64,
        ));
    }
    if rows.len() == strpos {
        rows.push(strrow);
    }
    for (i, v) in rows.iter().enumerate() {
        d[shoff + i * sh..shoff + (i + 1) * sh].copy_from_slice(v);
    }
    let t = d.len();
    d.resize(t + s.trailing as usize, 0);
    r.fill(&mut d[t..]);
    d
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FileSpec {
    Zip(ZipSpec),
    Elf(ElfSpec),
    Raw { seed: u64, len: u64, head: Vec<u8> },
    Bytes(Vec<u8>),
    Link(String),
    Dir,
}

pub fn build(f: &FileSpec) -> Vec<u8> {
    match f {
        FileSpec::Zip(z) => zip(z),
        FileSpec::Elf(e) => elf(e),
        FileSpec::Raw { seed, len, head } => {
            let mut d = Rng::new(derive(&[*seed, 0x726177])).bytes(*len as usize);
            let k = head.len().min(d.len());
            d[..k].copy_from_slice(&head[..k]);
            d
        }
        FileSpec::Bytes(b) => b.clone(),
        FileSpec::Link(_) | FileSpec::Dir => vec![],
    }
}

/// Damage done to a file between two uses of it
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    /// xor one byte at a position given in 1/65536 of a region
    Flip { region: Region, frac: u32, xor: u8 },
    /// overwrite bytes at an offset into the region
    Set { region: Region, off: u32, bytes: Vec<u8> },
    Truncate { frac: u32 },
    CutTail { bytes: u32 },
    Append { bytes: u32 },
    ZeroRange { region: Region, frac: u32, len: u32 },
    /// remove bytes
    Excise { region: Region, frac: u32, len: u32 },
    /// insert bytes
    Insert { region: Region, frac: u32, len: u32 },
    /// change the idx-th length, count or identifier inside the signing block
    Field { idx: u32, val: FieldVal },
    /// change a field of the header of the signature section: 0 name, 1 type, 2 flags, 3 address, 4 offset, 5 size
    SignSec {
        field: u8,
        val: FieldVal,
        /// of this section instead
        #[serde(default)]
        of: Option<u32>,
    },
    /// rearrange the pairs of the block and frame it again
    Pairs { edit: PairEdit },
    /// change the idx-th length-prefixed item of the block; every length around it stays right
    Item { idx: u32, edit: ItemEdit },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ItemEdit {
    /// bytes at its end
    Grow { len: u32, byte: u8 },
    /// cut bytes off its end
    Cut { len: u32 },
    /// the item once more, behind it
    Repeat,
    Remove,
    /// other bytes of the same length, from a position on
    Fill { at: u32, len: u32, byte: u8 },
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FieldVal {
    Add(i64),
    Exact(u64),
    Max,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum PairEdit {
    Dup(u32),
    Remove(u32),
    Swap(u32, u32),
    Add { id: u32, len: u32, at: u32 },
    /// add a pair so that the size field becomes exactly this
    Fill { size: u32 },
    /// pairs in another block's order: reversed
    Reverse,
    /// other pairs altogether: well-formed, as another tool might write them
    Any { seed: u64 },
}

/// Pairs of a well-formed block with parts this tool would not write itself
fn any_pairs(seed: u64) -> Vec<(u32, Vec<u8>)> {
    let mut r = Rng::new(derive(&[seed, 0x616e_79]));
    fn some(r: &mut Rng, top: u64) -> Vec<u8> {
        let n = if r.chance(1, 4) { r.below(3) } else { r.below(top) };
        r.bytes(n as usize)
    }
    fn id(r: &mut Rng) -> u32 {
        match r.below(4) {
            0 => refimpl::ALG256,
            1 => refimpl::ALG512,
            2 => *r.pick(&[0u32, 1, 0x0101, 0x0103, 0x0421, 0x0202, 0xffff_ffff]),
            _ => r.next() as u32,
        }
    }
    fn list(r: &mut Rng, most: u64, top: u64) -> Vec<(u32, Vec<u8>)> {
        (0..r.below(most + 1)).map(|_| (id(r), some(r, top))).collect()
    }
    fn signer(r: &mut Rng, tail: bool) -> Vec<u8> {
        let digests = list(r, 3, 70);
        let certs: Vec<Vec<u8>> = (0..r.below(4)).map(|_| some(r, 300)).collect();
        let top = if r.chance(1, 3) { 300 } else { 40 };
        let mut attrs = list(r, 3, top);
        if r.chance(1, 2) {
            attrs.push((0xe43c_5946, r.bytes(8)));
        }
        let mut signed = crate::judge::enc_signed(&digests, &certs, &attrs);
        if tail {
            signed.extend([0; 4]);
        }
        let sigs = list(r, 3, 110);
        let key = some(r, 130);
        crate::judge::enc_signer(&signed, &sigs, &key)
    }
    fn lp(b: &[u8]) -> Vec<u8> {
        let mut v = (b.len() as u32).to_le_bytes().to_vec();
        v.extend(b);
        v
    }
    let mut out = vec![];
    for _ in 0..r.below(6) {
        let p = match r.below(8) {
            0..=2 => {
                let n = if r.chance(1, 2) { 1 } else { r.below(4) };
                let all: Vec<u8> = (0..n).flat_map(|_| lp(&signer(&mut r, true))).collect();
                (refimpl::V2_ID, lp(&all))
            }
            3..=4 => (refimpl::STAMP_ID, lp(&signer(&mut r, false))),
            5 => {
                let n = r.below(4);
                let mut v = (n as u32).to_le_bytes().to_vec();
                for i in 0..n {
                    let name = *r.pick(&["", ".text", "a", ".data.rel.ro", "naïve", " .x"]);
                    v.extend((name.len() as u16).to_le_bytes());
                    v.extend(name.as_bytes());
                    v.extend((r.next() >> (8 * (i % 8))).to_le_bytes());
                    v.extend((r.next() >> 40).to_le_bytes());
                }
                (refimpl::ELF_ID, v)
            }
            6 => (refimpl::PAD_ID, vec![0; r.below(300) as usize]),
            _ => (if r.chance(1, 2) { r.next() as u32 } else { *r.pick(&[0u32, 1, 0x7109_871b, 0x6dff_800c, 0xffff_ffff]) }, some(&mut r, 400)),
        };
        out.push(p);
    }
    out
}

/// Offsets and widths of the lengths and identifiers inside a block, outermost first
pub fn fields(b: &[u8]) -> Vec<(usize, usize)> {
    fn u32at(b: &[u8], o: usize) -> Option<usize> {
        Some(u32::from_le_bytes(b.get(o..o + 4)?.try_into().ok()?) as usize)
    }
    /// length-prefixed items between o and e; calls f on each item's range
    fn items(b: &[u8], mut o: usize, e: usize, v: &mut Vec<(usize, usize)>, f: &mut dyn FnMut(&[u8], usize, usize, &mut Vec<(usize, usize)>)) {
        while o + 4 <= e {
            let Some(n) = u32at(b, o) else { return };
            v.push((o, 4));
            if o + 4 + n > e {
                return;
            }
            f(b, o + 4, o + 4 + n, v);
            o += 4 + n;
        }
    }
    fn pairs(b: &[u8], o: usize, e: usize, v: &mut Vec<(usize, usize)>) {
        items(b, o, e, v, &mut |b, o, e, v| {
            v.push((o, 4));
            if e >= o + 8 && u32at(b, o + 4).is_some_and(|n| o + 8 + n == e) {
                v.push((o + 4, 4));
            }
        });
    }
    fn signer(b: &[u8], o: usize, e: usize, v: &mut Vec<(usize, usize)>) {
        let mut k = 0;
        items(b, o, e, v, &mut |b, o, e, v| {
            if k == 0 {
                let mut j = 0;
                items(b, o, e, v, &mut |b, o, e, v| {
                    if j != 1 {
                        pairs(b, o, e, v);
                    } else {
                        items(b, o, e, v, &mut |_, _, _, _| {});
                    }
                    j += 1;
                });
            } else if k == 1 {
                pairs(b, o, e, v);
            }
            k += 1;
        });
    }
    let mut v = vec![];
    if b.len() < 32 {
        return v;
    }
    v.push((0, 8));
    v.push((b.len() - 24, 8));
    let mut o = 8;
    while o + 12 <= b.len() - 24 {
        let n = u64::from_le_bytes(b[o..o + 8].try_into().unwrap_or_default()) as usize;
        v.push((o, 8));
        v.push((o + 8, 4));
        if n < 4 || n > b.len() || o + 8 + n > b.len() - 24 {
            break;
        }
        let id = u32at(b, o + 8).unwrap_or(0) as u32;
        let (s, e) = (o + 12, o + 8 + n);
        match id {
            refimpl::V2_ID => items(b, s, e, &mut v, &mut |b, o, e, v| items(b, o, e, v, &mut signer)),
            refimpl::STAMP_ID => items(b, s, e, &mut v, &mut signer),
            refimpl::ELF_ID => {
                v.push((s, 4));
                if s + 6 <= e {
                    v.push((s + 4, 2));
                }
            }
            _ => {}
        }
        o += 8 + n;
    }
    v
}
/// Apply an edit to one item of a block; `None` if there is no such item
pub fn edit_item(b: &[u8], idx: u32, edit: &ItemEdit) -> Option<Vec<u8>> {
    let len = |o: usize, w: usize| {
        let mut x = [0u8; 8];
        x[..w].copy_from_slice(&b[o..o + w]);
        u64::from_le_bytes(x) as usize
    };
    // the fields that are the length of what follows them inside the block
    let end = b.len().checked_sub(24)?;
    let all: Vec<(usize, usize)> = fields(b)
        .into_iter()
        .filter(|(o, _)| *o != 0 && *o < end)
        .filter(|(o, w)| (o + w).checked_add(len(*o, *w)).is_some_and(|e| e <= end))
        .collect();
    // an identifier is no length, but may look like one: lengths nest, identifiers need not
    let mut items: Vec<(usize, usize)> = vec![];
    for (o, w) in all {
        let e = o + w + len(o, w);
        if items.iter().all(|(p, v)| {
            let q = p + v + len(*p, *v);
            e <= *p || o >= q || (o >= p + v && e <= q)
        }) {
            items.push((o, w));
        }
    }
    if items.is_empty() {
        return None;
    }
    let (o, w) = items[idx as usize % items.len()];
    let n = len(o, w);
    let e = o + w + n;
    let mut out = b.to_vec();
    let delta: i64 = match edit {
        ItemEdit::Grow { len, byte } => {
            out.splice(e..e, std::iter::repeat_n(*byte, *len as usize));
            *len as i64
        }
        ItemEdit::Cut { len } => {
            let k = (*len as usize).min(n);
            out.drain(e - k..e);
            -(k as i64)
        }
        ItemEdit::Repeat => {
            let x = b[o..e].to_vec();
            out.splice(e..e, x);
            (w + n) as i64
        }
        ItemEdit::Remove => {
            out.drain(o..e);
            -((w + n) as i64)
        }
        ItemEdit::Fill { at, len, byte } => {
            let p = o + w + (*at as usize).min(n);
            let q = (p + *len as usize).min(e);
            out[p..q].fill(*byte);
            0
        }
    };
    let own = matches!(edit, ItemEdit::Grow { .. } | ItemEdit::Cut { .. });
    let mut fix = |p: usize, v: usize, at: usize| {
        let x = (len(p, v) as i64).wrapping_add(delta) as u64;
        out[at..at + v].copy_from_slice(&x.to_le_bytes()[..v]);
    };
    for (p, v) in &items {
        let q = (p + v).saturating_add(len(*p, *v));
        if (own && (*p, *v) == (o, w)) || (o >= p + v && e <= q) {
            fix(*p, *v, *p);
        }
    }
    fix(0, 8, 0);
    let t = (end as i64 + delta) as usize;
    fix(end, 8, t);
    Some(out)
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Region {
    Whole,
    Content,
    Block,
    /// leading size field of the block
    BlockHead,
    /// trailing size field of the block
    BlockSize,
    BlockMagic,
    /// pairs inside the block
    BlockBody,
    Cd,
    Eocd,
    ElfHeader,
    ElfTable,
    ElfNames,
    ElfSign,
}

pub fn region(d: &[u8], r: Region) -> (usize, usize) {
    let z = refimpl::zip_layout(d);
    let whole = (0, d.len());
    let blk = || -> Option<(usize, usize)> {
        if let Some(l) = &z {
            if let refimpl::BlockState::Framed { start } = l.block {
                return Some((start, l.cd));
            }
            return None;
        }
        let l = refimpl::elf_layout(d)?;
        let s = l.secs.iter().find(|s| s.name == ".ksu_sign")?;
        let e = s.off.checked_add(s.size)? as usize;
        if e <= d.len() && s.size >= 32 {
            Some((s.off as usize, e))
        } else {
            None
        }
    };
    match r {
        Region::Whole => whole,
        Region::Content => z.and_then(|l| l.content_end().map(|e| (0, e))).unwrap_or(whole),
        Region::Cd => z.map(|l| (l.cd, l.eocd)).unwrap_or(whole),
        Region::Eocd => z.map(|l| (l.eocd, l.len)).unwrap_or(whole),
        Region::Block | Region::ElfSign => blk().unwrap_or(whole),
        Region::BlockHead => blk().map(|(a, _)| (a, a + 8)).unwrap_or(whole),
        Region::BlockSize => blk().map(|(_, b)| (b - 24, b - 16)).unwrap_or(whole),
        Region::BlockMagic => blk().map(|(_, b)| (b - 16, b)).unwrap_or(whole),
        Region::BlockBody => blk().map(|(a, b)| (a + 8, b - 24)).unwrap_or(whole),
        Region::ElfHeader => (0, d.len().min(64)),
        Region::ElfTable => refimpl::elf_layout(d)
            .map(|l| (l.shoff as usize, (l.shoff as usize + l.shnum * l.shentsize).min(d.len())))
            .unwrap_or(whole),
        Region::ElfNames => refimpl::elf_layout(d)
            .and_then(|l| l.secs.get(l.shstrndx).map(|s| (s.off as usize, s.off.saturating_add(s.size) as usize)))
            .filter(|(a, b)| a <= b && *b <= d.len())
            .unwrap_or(whole),
    }
}

/// Another block at the end of the file as the signature section
fn elf_with_block(d: &mut Vec<u8>, b: &[u8]) {
    let Some(l) = refimpl::elf_layout(d) else { return };
    let Some(k) = l.secs.iter().position(|s| s.name == ".ksu_sign") else { return };
    let w = if l.is64 { 8 } else { 4 };
    let at = l.shoff as usize + k * l.shentsize + if l.is64 { 24 } else { 16 };
    d.resize(d.len().div_ceil(4096) * 4096, 0);
    let mut v = vec![];
    put(&mut v, d.len() as u64, w, l.le);
    put(&mut v, b.len() as u64, w, l.le);
    overlay(d, at, &v);
    d.extend(b);
}

pub fn damage(d: &mut Vec<u8>, x: &Damage) {
    let at = |d: &[u8], r: Region, frac: u32| {
        let (a, b) = region(d, r);
        a + ((b.saturating_sub(a)) as u64 * (frac as u64 & 0xffff) / 65536) as usize
    };
    match x {
        Damage::Flip { region: r, frac, xor } => {
            let p = at(d, *r, *frac);
            if let Some(b) = d.get_mut(p) {
                *b ^= (*xor).max(1);
            }
        }
        Damage::Set { region: r, off, bytes } => {
            let (a, _) = region(d, *r);
            overlay(d, a + *off as usize, bytes);
        }
        Damage::Truncate { frac } => {
            let n = (d.len() as u64 * (*frac as u64 & 0xffff) / 65536) as usize;
            d.truncate(n);
        }
        Damage::CutTail { bytes } => {
            let n = d.len().saturating_sub(*bytes as usize);
            d.truncate(n);
        }
        Damage::Append { bytes } => {
            let n = d.len() + *bytes as usize;
            d.resize(n, b'x');
        }
        Damage::ZeroRange { region: r, frac, len } => {
            let p = at(d, *r, *frac);
            let e = (p + *len as usize).min(d.len());
            if p < e {
                d[p..e].fill(0);
            }
        }
        Damage::Excise { region: r, frac, len } => {
            let p = at(d, *r, *frac);
            let e = (p + *len as usize).min(d.len());
            if p < e {
                d.drain(p..e);
            }
        }
        Damage::Field { idx, val } => {
            let (a, b) = region(d, Region::Block);
            if (a, b) == (0, d.len()) && refimpl::parse_block(d).is_err() {
                return;
            }
            let f = fields(&d[a..b]);
            if f.is_empty() {
                return;
            }
            let (o, w) = f[*idx as usize % f.len()];
            let mut x = [0u8; 8];
            x[..w].copy_from_slice(&d[a + o..a + o + w]);
            let old = u64::from_le_bytes(x);
            let new = match val {
                FieldVal::Add(k) => old.wrapping_add(*k as u64),
                FieldVal::Exact(k) => *k,
                FieldVal::Max => u64::MAX,
            };
            d[a + o..a + o + w].copy_from_slice(&new.to_le_bytes()[..w]);
        }
        Damage::SignSec { field, val, of } => {
            let Some(l) = refimpl::elf_layout(d) else { return };
            let k = match of {
                Some(i) if !l.secs.is_empty() => Some(*i as usize % l.secs.len()),
                Some(_) => None,
                None => l.secs.iter().position(|s| s.name == ".ksu_sign"),
            };
            let Some(k) = k else { return };
            let w = if l.is64 { 8 } else { 4 };
            let (o, w) = match field {
                0 => (0, 4),
                1 => (4, 4),
                f => (8 + (*f as usize - 2) * w, w),
            };
            let s = &l.secs[k];
            let old = match field {
                4 => s.off,
                5 => s.size,
                _ => 0,
            };
            let new = match val {
                FieldVal::Add(k) => old.wrapping_add(*k as u64),
                FieldVal::Exact(k) => *k,
                FieldVal::Max => u64::MAX,
            };
            let mut v = vec![];
            put(&mut v, new, w, l.le);
            overlay(d, l.shoff as usize + k * l.shentsize + o, &v);
        }
        Damage::Pairs { edit } => {
            let bare = refimpl::parse_block(d).ok();
            let blk = match &bare {
                Some(b) => b.clone(),
                None => match refimpl::zip_block(d)
                    .and_then(|b| refimpl::parse_block(b).ok())
                    .or_else(|| refimpl::elf_block(d).and_then(|b| refimpl::parse_block(&b).ok()))
                {
                    Some(b) => b,
                    None => return,
                },
            };
            let mut p = blk.pairs;
            let n = p.len();
            match edit {
                PairEdit::Dup(i) if n > 0 => {
                    let x = p[*i as usize % n].clone();
                    p.push(x);
                }
                PairEdit::Remove(i) if n > 0 => {
                    p.remove(*i as usize % n);
                }
                PairEdit::Swap(i, j) if n > 0 => p.swap(*i as usize % n, *j as usize % n),
                PairEdit::Add { id, len, at } => p.insert(*at as usize % (n + 1), (*id, vec![0x6b; *len as usize])),
                PairEdit::Fill { size } => {
                    let have = crate::judge::enc_block(&p).len() - 8;
                    if let Some(k) = (*size as usize).checked_sub(have + 12) {
                        p.push((0x1234_5678, vec![0x33; k]));
                    }
                }
                PairEdit::Reverse => p.reverse(),
                PairEdit::Any { seed } => p = any_pairs(*seed),
                _ => {}
            }
            let b = crate::judge::enc_block(&p);
            if bare.is_some() {
                *d = b;
            } else if refimpl::elf_block(d).is_some() {
                elf_with_block(d, &b);
            } else if let Some(x) = refimpl::zip_strip(d).and_then(|s| crate::judge::with_block(&s, &b)) {
                *d = x;
            }
        }
        Damage::Item { idx, edit } => {
            if refimpl::parse_block(d).is_ok() {
                if let Some(b) = edit_item(d, *idx, edit) {
                    *d = b;
                }
                return;
            }
            if let Some(b) = refimpl::elf_block(d) {
                if let Some(b) = edit_item(&b, *idx, edit) {
                    elf_with_block(d, &b);
                }
                return;
            }
            let Some(b) = refimpl::zip_block(d).and_then(|b| edit_item(b, *idx, edit)) else { return };
            if let Some(x) = refimpl::zip_strip(d).and_then(|s| crate::judge::with_block(&s, &b)) {
                *d = x;
            }
        }
        Damage::Insert { region: r, frac, len } => {
            let p = at(d, *r, *frac).min(d.len());
            let v: Vec<u8> = (0..*len).map(|i| (i * 37 + 11) as u8).collect();
            d.splice(p..p, v);
        }
    }
}
