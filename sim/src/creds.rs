//! Signing credentials made from a seed: ECDSA keys, X.509 certificates and chains, and the
//! containers the tool reads them from. Deterministic: same specification, same bytes.
use crate::refimpl::{ALG256, ALG512};
use crate::rng::{derive, hash_str, Rng};
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum KeyFmt {
    Pkcs8,
    Sec1,
    EncPkcs8,
    P12,
}

/// Certificate shape
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct CredSpec {
    pub p384: bool,
    pub seed: u64,
    pub fmt: KeyFmt,
    pub password: String,
    /// filler bytes in the leaf certificate
    pub leaf_pad: u32,
    /// filler bytes in each further certificate (intermediates first, root last)
    pub chain: Vec<u32>,
    /// leave the root out of the file (it stays available as trust anchor)
    pub omit_root: bool,
    pub not_before: i64,
    pub not_after: i64,
    pub code_signing: bool,
    pub ca_flag: bool,
    /// text around the PEM blocks, other block types in between
    pub pem_noise: bool,
    pub crlf: bool,
    /// damage to the files
    #[serde(default)]
    pub flaw: Option<Flaw>,
    /// the certificates carry the names that this seed would give them
    #[serde(default)]
    pub mimic: Option<u64>,
    /// the certificate authorities are those of this seed
    #[serde(default)]
    pub under: Option<u64>,
    /// unusual order of the certificates, see [`make`]
    #[serde(default)]
    pub order: u8,
}

/// What happened to the files of a credential
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Flaw {
    /// the key or P12 file ends early
    CutKey { frac: u32 },
    CutCert { frac: u32 },
    /// one bit of the key or P12 file differs
    FlipKey { frac: u32, bit: u8 },
    FlipCert { frac: u32, bit: u8 },
    /// a character that is not base64 in a certificate
    BadChar { cert: u8, at: u32 },
    /// a certificate without its last line
    NoEnd { cert: u8 },
    /// a certificate without its first line
    NoBegin { cert: u8 },
    /// last line with another label
    OtherEnd { cert: u8 },
    /// a piece of a certificate's body is missing
    Hole { cert: u8, at: u32, len: u8 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum State {
    Good,
    /// has to be refused
    Bad,
    /// refused, or loaded as it is in the file
    Maybe,
}

impl CredSpec {
    pub fn simple(seed: u64, p384: bool) -> Self {
        CredSpec {
            p384,
            seed,
            fmt: KeyFmt::Pkcs8,
            password: String::new(),
            leaf_pad: 0,
            chain: vec![],
            omit_root: false,
            not_before: 946_684_800,
            not_after: 4_000_000_000,
            code_signing: true,
            ca_flag: true,
            pem_noise: false,
            crlf: false,
            flaw: None,
            mimic: None,
            under: None,
            order: 0,
        }
    }
}

/// What a certificate says
#[derive(Clone, Debug)]
pub struct CertInfo {
    pub der: Vec<u8>,
    pub subject: String,
    pub issuer: String,
    pub spki: Vec<u8>,
    pub issuer_spki: Vec<u8>,
    pub ca: bool,
    pub code_signing: bool,
    pub not_before: i64,
    pub not_after: i64,
}

pub enum Key {
    P256(p256::ecdsa::SigningKey),
    P384(p384::ecdsa::SigningKey),
}

pub struct Cred {
    pub alg: u32,
    pub key: Key,
    /// SubjectPublicKeyInfo
    pub spki: Vec<u8>,
    pub leaf: Vec<u8>,
    /// certificates after the leaf as they are in the file
    pub chain: Vec<Vec<u8>>,
    /// the trust anchor (self-signed); the leaf itself when there is no chain
    pub root: Vec<u8>,
    /// name and key of the trust anchor: what trust hangs on
    pub anchor: Vec<u8>,
    /// key file / P12 file
    pub key_file: Vec<u8>,
    /// certificate file (empty for P12)
    pub cert_file: Vec<u8>,
    pub state: State,
    /// all certificates, leaf first and root last, as they were issued
    pub infos: Vec<CertInfo>,
}

thread_local! {
    static CACHE: RefCell<HashMap<CredSpec, Arc<Cred>>> = RefCell::new(HashMap::new());
}

pub fn build(s: &CredSpec) -> Arc<Cred> {
    if let Some(c) = CACHE.with(|c| c.borrow().get(s).cloned()) {
        return c;
    }
    let c = Arc::new(make(s));
    CACHE.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 200 {
            m.clear();
        }
        m.insert(s.clone(), c.clone());
    });
    c
}

// ---- DER ----
pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = body.len();
    if n < 0x80 {
        v.push(n as u8);
    } else if n < 0x100 {
        v.extend([0x81, n as u8]);
    } else if n < 0x10000 {
        v.extend([0x82, (n >> 8) as u8, n as u8]);
    } else {
        v.extend([0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]);
    }
    v.extend(body);
    v
}
fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
const OID_CN: &[u8] = &[0x55, 4, 3];
const OID_P256_SHA256: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 2];
const OID_P384_SHA384: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 4, 3, 3];
fn name(n: &str) -> Vec<u8> {
    seq(&[tlv(0x31, &seq(&[tlv(6, OID_CN), tlv(0x0c, n.as_bytes())]))])
}
/// The year of a time
pub fn year(secs: i64) -> i64 {
    let z = secs.div_euclid(86400) + 719_468;
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    yoe + z.div_euclid(146_097) * 400 + i64::from((5 * doy + 2) / 153 >= 10)
}
/// GeneralizedTime / UTCTime from seconds since the epoch
fn time(secs: i64) -> Vec<u8> {
    let days = secs.div_euclid(86400);
    let t = secs.rem_euclid(86400);
    // civil from days
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + i64::from(m <= 2);
    let rest = format!("{m:02}{d:02}{:02}{:02}{:02}Z", t / 3600, t / 60 % 60, t % 60);
    if (1950..2050).contains(&y) {
        tlv(0x17, format!("{:02}{rest}", y % 100).as_bytes())
    } else {
        tlv(0x18, format!("{y:04}{rest}").as_bytes())
    }
}
fn ext(oid: &[u8], critical: bool, val: Vec<u8>) -> Vec<u8> {
    let mut p = vec![tlv(6, oid)];
    if critical {
        p.push(vec![1, 1, 0xff]);
    }
    p.push(tlv(4, &val));
    seq(&p)
}

fn new_key(p384: bool, seed: u64) -> Key {
    let mut n = 0;
    loop {
        let mut r = Rng::new(derive(&[seed, 0x6b65_79, n]));
        if p384 {
            if let Ok(k) = p384::ecdsa::SigningKey::from_slice(&r.bytes(48)) {
                return Key::P384(k);
            }
        } else if let Ok(k) = p256::ecdsa::SigningKey::from_slice(&r.bytes(32)) {
            return Key::P256(k);
        }
        n += 1;
    }
}
impl Key {
    pub fn spki(&self) -> Vec<u8> {
        match self {
            Key::P256(k) => {
                use p256::pkcs8::EncodePublicKey;
                k.verifying_key().to_public_key_der().map(|d| d.into_vec()).unwrap_or_default()
            }
            Key::P384(k) => {
                use p384::pkcs8::EncodePublicKey;
                k.verifying_key().to_public_key_der().map(|d| d.into_vec()).unwrap_or_default()
            }
        }
    }
    fn sign(&self, data: &[u8]) -> (Vec<u8>, &'static [u8]) {
        match self {
            Key::P256(k) => {
                use p256::ecdsa::{signature::Signer, Signature};
                let s: Signature = k.sign(data);
                (s.to_der().as_bytes().to_vec(), OID_P256_SHA256)
            }
            Key::P384(k) => {
                use p384::ecdsa::{signature::Signer, Signature};
                let s: Signature = k.sign(data);
                (s.to_der().as_bytes().to_vec(), OID_P384_SHA384)
            }
        }
    }
    pub fn pkcs8(&self) -> Vec<u8> {
        use pkcs8::EncodePrivateKey;
        match self {
            Key::P256(k) => k.to_pkcs8_der().map(|d| d.as_bytes().to_vec()).unwrap_or_default(),
            Key::P384(k) => k.to_pkcs8_der().map(|d| d.as_bytes().to_vec()).unwrap_or_default(),
        }
    }
    pub fn sec1(&self) -> Vec<u8> {
        let (d, oid): (Vec<u8>, &[u8]) = match self {
            Key::P256(k) => (k.to_bytes().to_vec(), &[0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7]),
            Key::P384(k) => (k.to_bytes().to_vec(), &[0x2b, 0x81, 4, 0, 0x22]),
        };
        seq(&[vec![2, 1, 1], tlv(4, &d), tlv(0xa0, &tlv(6, oid))])
    }
    /// the code under test's key type
    pub fn to_ksu(&self) -> ksusig::signing_block::algorithms::PrivateKey {
        use ksusig::signing_block::algorithms::PrivateKey as P;
        match self {
            Key::P256(k) => P::EcdsaP256(k.clone()),
            Key::P384(k) => P::EcdsaP384(k.clone()),
        }
    }
}

struct CertReq<'a> {
    subject: &'a str,
    issuer: &'a str,
    serial: u64,
    nb: i64,
    na: i64,
    ca: Option<bool>,
    eku: bool,
    pad: usize,
}
fn cert(r: &CertReq, subject: &Key, issuer: &Key) -> Vec<u8> {
    let mut exts = vec![];
    if let Some(ca) = r.ca {
        let body = if ca { seq(&[vec![1, 1, 0xff]]) } else { seq(&[]) };
        exts.push(ext(&[0x55, 0x1d, 0x13], true, body));
    }
    if r.eku {
        let cs: &[u8] = &[0x2b, 6, 1, 5, 5, 7, 3, 3];
        exts.push(ext(&[0x55, 0x1d, 0x25], false, seq(&[tlv(6, cs)])));
    }
    if r.pad > 0 {
        let mut g = Rng::new(derive(&[r.serial, 0x70_61_64]));
        exts.push(ext(&[0x2b, 6, 1, 4, 1, 0x82, 0x37, 0x63], false, tlv(4, &g.bytes(r.pad))));
    }
    let (_, oid) = issuer.sign(b"");
    let alg = seq(&[tlv(6, oid)]);
    let mut serial = r.serial.to_be_bytes().to_vec();
    serial[0] = 1 + (serial[0] & 0x3f);
    let tbs = seq(&[
        tlv(0xa0, &[2, 1, 2]),
        tlv(2, &serial),
        alg.clone(),
        name(r.issuer),
        seq(&[time(r.nb), time(r.na)]),
        name(r.subject),
        subject.spki(),
        if exts.is_empty() { vec![] } else { tlv(0xa3, &seq(&exts)) },
    ]);
    let (sig, _) = issuer.sign(&tbs);
    let mut bits = vec![0];
    bits.extend(sig);
    seq(&[tbs, alg, tlv(3, &bits)])
}

fn pem(tag: &str, der: &[u8], crlf: bool) -> String {
    use base64::Engine;
    let b = base64::engine::general_purpose::STANDARD.encode(der);
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut s = format!("-----BEGIN {tag}-----{nl}");
    for l in b.as_bytes().chunks(64) {
        s.push_str(&String::from_utf8_lossy(l));
        s.push_str(nl);
    }
    s + &format!("-----END {tag}-----{nl}")
}
pub fn pem_cert(der: &[u8]) -> Vec<u8> {
    pem("CERTIFICATE", der, false).into_bytes()
}

fn make(s: &CredSpec) -> Cred {
    let key = new_key(s.p384, s.seed);
    let n = s.chain.len();
    let up = s.under.unwrap_or(s.seed);
    // chain[i] certifies chain[i-1] (the leaf for i == 0); the last one is self-signed
    let cas: Vec<Key> = (0..n)
        .map(|i| new_key((up >> i) & 1 == 1, derive(&[up, 100 + i as u64, n as u64])))
        .collect();
    let named = s.mimic.unwrap_or(s.seed);
    let ca_named = s.mimic.unwrap_or(up);
    let nm = |i: usize| format!("ca{i}/{n} {:x}", ca_named & 0xffff);
    let leaf_name = format!("leaf {:x}", named & 0xffff);
    let leaf = cert(
        &CertReq {
            subject: &leaf_name,
            issuer: &if n == 0 { leaf_name.clone() } else { nm(0) },
            serial: derive(&[s.seed, 1]),
            nb: s.not_before,
            na: s.not_after,
            ca: if n == 0 { None } else { Some(false) },
            eku: s.code_signing,
            pad: s.leaf_pad as usize,
        },
        &key,
        if n == 0 { &key } else { &cas[0] },
    );
    let mut chain = vec![];
    let up0 = up;
    for i in 0..n {
        let up = (i + 1).min(n - 1);
        chain.push(cert(
            &CertReq {
                subject: &nm(i),
                issuer: &nm(up),
                serial: derive(&[up0, 2 + i as u64]),
                nb: 0,
                na: 9_000_000_000,
                ca: Some(s.ca_flag || i + 1 == n),
                // webpki asks for the usage in intermediates as well
                eku: s.code_signing && i + 1 < n,
                pad: s.chain[i] as usize,
            },
            &cas[i],
            &cas[up],
        ));
    }
    let mut infos = vec![CertInfo {
        der: leaf.clone(),
        subject: leaf_name.clone(),
        issuer: if n == 0 { leaf_name.clone() } else { nm(0) },
        spki: key.spki(),
        issuer_spki: if n == 0 { &key } else { &cas[0] }.spki(),
        ca: false,
        code_signing: s.code_signing,
        not_before: s.not_before,
        not_after: s.not_after,
    }];
    for i in 0..n {
        let up = (i + 1).min(n - 1);
        infos.push(CertInfo {
            der: chain[i].clone(),
            subject: nm(i),
            issuer: nm(up),
            spki: cas[i].spki(),
            issuer_spki: cas[up].spki(),
            ca: s.ca_flag || i + 1 == n,
            code_signing: s.code_signing && i + 1 < n,
            not_before: 0,
            not_after: 9_000_000_000,
        });
    }
    let root = chain.last().cloned().unwrap_or_else(|| leaf.clone());
    let mut anchor = if n == 0 { leaf_name.clone() } else { nm(n - 1) }.into_bytes();
    anchor.extend(cas.last().unwrap_or(&key).spki());
    if s.omit_root && !chain.is_empty() {
        chain.pop();
    }
    match s.order {
        1 => chain.push(leaf.clone()),
        2 => {
            if let Some(c) = chain.first().cloned() {
                chain.insert(0, c);
            }
        }
        3 => chain.reverse(),
        4 => chain.insert(0, root.clone()),
        5 => chain.insert(0, leaf.clone()),
        _ => {}
    }
    let mut certs = String::new();
    let mut q = crate::rng::Rng::new(derive(&[s.seed, s.leaf_pad as u64, chain.len() as u64, s.order as u64, 0x6e6f]));
    let mut noise = |certs: &mut String, first: bool| {
        if !s.pem_noise {
            return;
        }
        if first || q.chance(1, 3) {
            certs.push_str("Bag Attributes\n    friendlyName: x\nsubject=CN = x\n");
        }
        for _ in 0..q.below(3) {
            let tag = *q.pick(&["EC PARAMETERS", "EC PARAMETERS", "X509 CRL", "CERTIFICATE REQUEST", "ATTRIBUTE CERTIFICATE", "PUBLIC KEY", "PKCS7", "EC PRIVATE KEY", "PRIVATE KEY"]);
            let der = match tag {
                "EC PARAMETERS" => vec![6, 8, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7],
                "PUBLIC KEY" => key.spki(),
                "EC PRIVATE KEY" => key.sec1(),
                "PRIVATE KEY" => key.pkcs8(),
                _ => leaf[..leaf.len() / 2].to_vec(),
            };
            certs.push_str(&pem(tag, &der, s.crlf));
        }
    };
    noise(&mut certs, true);
    certs.push_str(&pem("CERTIFICATE", &leaf, s.crlf));
    for c in &chain {
        noise(&mut certs, false);
        certs.push_str(&pem("CERTIFICATE", c, s.crlf));
    }
    noise(&mut certs, false);
    let (key_file, cert_file) = match s.fmt {
        KeyFmt::Pkcs8 => (pem("PRIVATE KEY", &key.pkcs8(), s.crlf).into_bytes(), certs.into_bytes()),
        KeyFmt::Sec1 => (pem("EC PRIVATE KEY", &key.sec1(), s.crlf).into_bytes(), certs.into_bytes()),
        KeyFmt::EncPkcs8 => {
            let der = key.pkcs8();
            let salt = Sha256::digest(s.seed.to_le_bytes());
            let mut iv = [0u8; 16];
            iv.copy_from_slice(&salt[16..32]);
            let enc = pkcs8::pkcs5::pbes2::Parameters::pbkdf2_sha256_aes256cbc(16, &salt[..8], &iv)
                .ok()
                .and_then(|p| {
                    let info = pkcs8::PrivateKeyInfo::try_from(&der[..]).ok()?;
                    info.encrypt_with_params(p, s.password.as_bytes()).ok()
                })
                .map(|d| d.as_bytes().to_vec())
                .unwrap_or_default();
            (pem("ENCRYPTED PRIVATE KEY", &enc, s.crlf).into_bytes(), certs.into_bytes())
        }
        KeyFmt::P12 => {
            let cas: Vec<&[u8]> = chain.iter().map(|c| &c[..]).collect();
            let seed = derive(&[s.seed, hash_str(&s.password), 12]);
            let pfx = crate::sys::with_rand(seed, || {
                p12::PFX::new_with_cas(&leaf, &key.pkcs8(), &cas, &s.password, "k")
            });
            (pfx.map(|p| p.to_der()).unwrap_or_default(), vec![])
        }
    };
    let mut c = Cred {
        state: State::Good,
        infos,
        anchor,
        alg: if s.p384 { ALG512 } else { ALG256 },
        spki: key.spki(),
        key,
        leaf,
        chain,
        root,
        key_file,
        cert_file,
    };
    if let Some(f) = s.flaw {
        spoil(&mut c, s, f);
    }
    c
}

/// The certificates of a PEM file, strictly: every block complete
fn strict(file: &[u8]) -> Option<Vec<Vec<u8>>> {
    use base64::Engine;
    // what stands between the blocks may be anything
    let text = String::from_utf8_lossy(file);
    let mut out = vec![];
    let mut rest: &str = &text;
    loop {
        let begin = rest.find("-----BEGIN ");
        let end = rest.find("-----END ");
        let b = match (begin, end) {
            (None, None) => return Some(out),
            (Some(b), Some(e)) if b < e => b,
            _ => return None,
        };
        rest = &rest[b + 11..];
        let (label, after) = rest.split_once("-----")?;
        let (body, after) = after.split_once("-----END ")?;
        let (label2, after) = after.split_once("-----")?;
        if label != label2 || body.contains("-----BEGIN ") {
            return None;
        }
        rest = after;
        // any white space, a vertical tab too
        let b64: String = body.chars().filter(|c| !c.is_whitespace()).collect();
        let der = base64::engine::general_purpose::STANDARD.decode(b64).ok()?;
        if label == "CERTIFICATE" {
            out.push(der);
        }
    }
}

/// position of the n-th occurrence (wrapping around)
fn nth(file: &[u8], what: &[u8], n: u8) -> Option<usize> {
    let all: Vec<usize> = file.windows(what.len()).enumerate().filter(|(_, w)| *w == what).map(|(i, _)| i).collect();
    all.get(n as usize % all.len().max(1)).copied()
}

fn spoil(c: &mut Cred, s: &CredSpec, f: Flaw) {
    let at = |len: usize, frac: u32| (len as u64 * (frac % 10_000) as u64 / 10_000) as usize;
    let begin = b"-----BEGIN CERTIFICATE-----";
    let end = b"-----END CERTIFICATE-----";
    let p12 = s.fmt == KeyFmt::P12;
    // bodies of the certificates
    let body = |file: &[u8], n: u8| Some((nth(file, begin, n)? + begin.len(), nth(file, end, n)?));
    match f {
        Flaw::CutKey { frac } => {
            let n = at(c.key_file.len(), frac);
            let lost = c.key_file.split_off(n);
            c.state = if p12 || lost.iter().any(|b| !b.is_ascii_whitespace()) { State::Bad } else { State::Maybe };
        }
        Flaw::FlipKey { frac, bit } => {
            let n = at(c.key_file.len(), frac);
            if let Some(b) = c.key_file.get_mut(n) {
                *b ^= 1 << (bit & 7);
                c.state = State::Maybe;
            }
        }
        Flaw::CutCert { frac } => {
            let n = at(c.cert_file.len(), frac);
            c.cert_file.truncate(n);
        }
        Flaw::FlipCert { frac, bit } => {
            let n = at(c.cert_file.len(), frac);
            if let Some(b) = c.cert_file.get_mut(n) {
                *b ^= 1 << (bit & 7);
            }
        }
        Flaw::BadChar { cert, at: x } => {
            if let Some((b, e)) = body(&c.cert_file, cert) {
                let pos = b + x as usize % (e - b);
                c.cert_file[pos] = b'!';
            }
        }
        Flaw::Hole { cert, at: x, len } => {
            if let Some((b, e)) = body(&c.cert_file, cert) {
                let pos = b + x as usize % (e - b);
                let to = (pos + 1 + len as usize).min(e);
                c.cert_file.drain(pos..to);
            }
        }
        Flaw::NoEnd { cert } => {
            if let Some(p) = nth(&c.cert_file, end, cert) {
                c.cert_file.drain(p..p + end.len());
            }
        }
        Flaw::NoBegin { cert } => {
            if let Some(p) = nth(&c.cert_file, begin, cert) {
                c.cert_file.drain(p..p + begin.len());
            }
        }
        Flaw::OtherEnd { cert } => {
            if let Some(p) = nth(&c.cert_file, end, cert) {
                c.cert_file[p + 12] ^= 1;
            }
        }
    }
    if !p12 && !matches!(f, Flaw::CutKey { .. } | Flaw::FlipKey { .. }) {
        match strict(&c.cert_file) {
            Some(v) if !v.is_empty() => {
                c.state = State::Maybe;
                c.leaf = v[0].clone();
                c.chain = v[1..].to_vec();
            }
            _ => c.state = State::Bad,
        }
    }
}
