//! What the simulated programs do: every operation of a scenario, run against the real code.
use crate::creds::{Cred, KeyFmt};
use crate::refimpl;
use crate::scenario::{ObjOp, Op, Pw, Root, Scenario, Via};
use ksusig::common::{Digest, Digests};
use ksusig::file_formats::elf::ElfFile;
use ksusig::signing_block::algorithms::Algorithms;
use ksusig::signing_block::elf_section_info::ElfSectionInfo;
use ksusig::{Module, ModuleSigner, ModuleSignerConfig, Signable, SignableFile, SigningBlock, ValueSigningBlock};
use std::fs::File;
use std::io::{BufWriter, Write};
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct Blk {
    pub bytes: Vec<u8>,
    pub start: usize,
    pub end: usize,
    /// size at the start, of the parts, at the end, of all
    pub sizes: [usize; 4],
}
/// What a block is put between, and the part that is added to it
pub const PARSE_BEFORE: usize = 37;
pub const PARSE_ID: u32 = 0x1234_5678;
pub const PARSE_EXTRA: &[u8] = b"one part more";
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Bytes(Vec<u8>),
    Block(Option<Blk>),
    Creds { leaf: Vec<u8>, chain: Vec<Vec<u8>>, alg: u32, spki: Vec<u8> },
    Bool(bool),
    Offsets([usize; 6]),
    Regions(Vec<(String, u64, u64)>),
    Contents(Vec<Result<Option<Vec<u8>>, String>>),
    Obj(Vec<Result<Out, String>>),
    Verify { valid: bool, v2: Option<Claims>, stamp: Option<Claims>, why: String },
}
/// What verification says about one signer: signature, digest, chain, trust
#[derive(Clone, Debug, PartialEq)]
pub struct Claim {
    pub flags: [bool; 4],
    pub cert: Option<Vec<u8>>,
    pub chain: Vec<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Claims {
    pub all: [bool; 4],
    pub signers: Vec<Claim>,
}
pub type Res = Result<Out, String>;

/// What an actor knows: nothing but the scenario and the credentials
pub struct Env {
    pub creds: Vec<Arc<Cred>>,
    pub scen: Arc<Scenario>,
    /// per operation: is its input an ELF file (for the type-specific interfaces)
    pub is_elf: bool,
    /// regions for the reader interfaces, from the reference model
    pub offsets: Option<[usize; 4]>,
    pub secs: Option<Vec<(String, u64, u64)>>,
}

fn s<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
pub fn algo(a512: bool) -> Algorithms {
    if a512 {
        Algorithms::ECDSA_SHA2_512
    } else {
        Algorithms::ECDSA_SHA2_256
    }
}
pub fn algo_of(c: &Cred) -> Algorithms {
    algo(c.alg == refimpl::ALG512)
}
fn config(c: &Cred) -> ModuleSignerConfig {
    ModuleSignerConfig::with_cert_chain(c.key.to_ksu(), c.leaf.clone(), algo_of(c), c.chain.clone())
}

pub fn pass(sc: &Scenario, i: u32, pw: Pw) -> Option<String> {
    let p = sc.creds[i as usize].password.clone();
    match pw {
        Pw::Right => Some(p),
        Pw::Wrong => Some(format!("{p}x")),
        Pw::Missing => None,
        Pw::Short if p.is_empty() => Some("_".into()),
        Pw::Short => Some(p.chars().take(p.chars().count().max(1) - 1).collect()),
        Pw::Case => {
            let swap: String = p.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            Some(if swap == p { format!("_{p}") } else { swap })
        }
        Pw::Empty => Some(if p.is_empty() { "_".into() } else { String::new() }),
        Pw::Blank => Some(format!("{p} ")),
    }
}

fn cred_args(sc: &Scenario, i: u32, pw: Pw, pre: &str, out: &mut Vec<String>) {
    let c = &sc.creds[i as usize];
    match c.fmt {
        KeyFmt::P12 => {
            out.push(format!("--{pre}p12=/sim/keys/{i}.p12"));
        }
        _ => {
            out.push(format!("--{pre}key=/sim/keys/{i}.key"));
            out.push(format!("--{pre}cert=/sim/keys/{i}.crt"));
        }
    }
    // a password that is not needed does no harm
    if matches!(c.fmt, KeyFmt::P12 | KeyFmt::EncPkcs8) || pw == Pw::Case {
        if let Some(p) = pass(sc, i, pw) {
            out.push(format!("--{pre}password={p}"));
        }
    }
}
/// As one list, or one after the other
fn section_args(sections: &[String], v: &mut Vec<String>) {
    if (2..20).contains(&sections.len()) && sections.len() % 2 == 0 {
        v.extend(sections.iter().map(|n| format!("--elf-section={n}")));
    } else if !sections.is_empty() {
        v.push(format!("--elf-section={}", sections.join(",")));
    }
}
pub fn argv(sc: &Scenario, op: &Op) -> Option<Vec<String>> {
    let mut v = vec!["ksusig".to_string()];
    match op {
        Op::Sign { input, output, v2, stamp, sections, pw, spw, .. } => {
            v.extend(["sign".into(), input.clone(), output.clone()]);
            cred_args(sc, *v2, *pw, "", &mut v);
            if let Some(t) = stamp {
                cred_args(sc, *t, *spw, "stamp-", &mut v);
            }
            section_args(sections, &mut v);
        }
        Op::Digest { input, alg512, base64, sections, .. } => {
            v.extend(["digest".into(), input.clone()]);
            v.push(if *alg512 { "--sha512".into() } else { "--sha256".into() });
            if *base64 {
                v.push("--format=base64".into());
            }
            section_args(sections, &mut v);
        }
        Op::Dump { input, output, sections, .. } => {
            v.extend(["digest".into(), input.clone(), format!("--dump={output}")]);
            section_args(sections, &mut v);
        }
        Op::Verify { input, root, .. } => {
            v.extend(["verify".into(), input.clone()]);
            if let Root::Of(i) = root {
                v.push(format!("--root=/sim/keys/{i}.root"));
            }
        }
        Op::Info { input, .. } => v.extend(["info".into(), input.clone()]),
        _ => return None,
    }
    Some(v)
}

fn cli(sc: &Scenario, op: &Op) -> Res {
    use clap::Parser;
    let args = argv(sc, op).ok_or("not a command")?;
    let c = crate::app::TheCli::try_parse_from(args).map_err(s)?;
    c.execute().map_err(s)?;
    Ok(Out::Unit)
}

/// The digest the command printed
pub fn printed_digest(out: &[u8], base64: bool) -> Option<Vec<u8>> {
    let t = String::from_utf8_lossy(out).to_string();
    let l = t.lines().rev().find(|l| !l.trim().is_empty())?.trim().to_string();
    if base64 {
        use base64::Engine;
        return base64::engine::general_purpose::STANDARD.decode(l).ok();
    }
    if l.len() % 2 != 0 {
        return None;
    }
    (0..l.len() / 2).map(|i| u8::from_str_radix(l.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

fn blk(b: &SigningBlock) -> Blk {
    Blk {
        bytes: b.to_u8(),
        start: b.file_offset_start,
        end: b.file_offset_end,
        sizes: [b.size_of_block_start, b.content_size, b.size_of_block_end, b.get_full_size()],
    }
}

fn open(path: &str, sections: &[String]) -> Result<SignableFile, String> {
    let mut f = SignableFile::open(Path::new(path)).map_err(s)?;
    if !sections.is_empty() {
        f.set_elf_sections(sections.to_vec()).map_err(s)?;
    }
    Ok(f)
}

fn write_out(f: &SignableFile, output: &str, block: &SigningBlock, buffered: bool) -> Result<(), String> {
    let mut w = File::create(output).map_err(s)?;
    if buffered {
        let mut b = BufWriter::new(w);
        f.write_with_signature(&mut b, block).map_err(s)?;
        b.flush().map_err(s)
    } else {
        f.write_with_signature(&mut w, block).map_err(s)
    }
}

pub fn run(op: &Op, env: &Env) -> Res {
    let sc = &*env.scen;
    match op {
        Op::Sign { .. } | Op::Dump { .. } | Op::Info { .. } => cli(sc, op),
        Op::Digest { input, alg512, via, sections, .. } => {
            let a = algo(*alg512);
            match via {
                Via::Cli | Via::Process => cli(sc, op),
                Via::Signable => Ok(Out::Bytes(open(input, sections)?.digest(&a).map_err(s)?)),
                Via::Direct => {
                    if env.is_elf {
                        let mut e = ElfFile::new(PathBuf::from(input)).map_err(s)?;
                        if !sections.is_empty() {
                            e.set_signed_sections(sections.clone()).map_err(s)?;
                        }
                        Ok(Out::Bytes(e.digest(&a).map_err(s)?))
                    } else {
                        if !sections.is_empty() {
                            return Err("sections of a module".into());
                        }
                        let m = Module::new(PathBuf::from(input)).map_err(s)?;
                        Ok(Out::Bytes(m.digest(&a).map_err(s)?))
                    }
                }
                Via::Reader => {
                    let mut f = File::open(input).map_err(s)?;
                    if let Some(v) = &env.secs {
                        let d = ksusig::file_formats::elf::digest::digest_elf_sections(&mut f, v, &a);
                        return Ok(Out::Bytes(d.map_err(s)?));
                    }
                    let o = env.offsets.ok_or("no regions")?;
                    let o = ksusig::zip::FileOffsets::new(o[0], o[1], o[2], o[3]);
                    Ok(Out::Bytes(ksusig::digest_module(&mut f, &o, &a).map_err(s)?))
                }
            }
        }
        Op::Inspect { input } => {
            let f = open(input, &[])?;
            Ok(Out::Block(f.signing_block().map_err(s)?.as_ref().map(blk)))
        }
        Op::LibSign { input, output, v2, stamp, timestamp, padding, sections, buffered, old_stamp } => {
            let f = open(input, sections)?;
            let c = |i: &u32| &env.creds[*i as usize];
            let mut signer = match (v2, stamp) {
                (Some(a), Some(b)) => ModuleSigner::with_source_stamp(config(c(a)), config(c(b))),
                (Some(a), None) => ModuleSigner::v2_only(config(c(a))),
                (None, Some(b)) => ModuleSigner::stamp_only(config(c(b))),
                (None, None) => return Err("nothing to sign with".into()),
            };
            // both are on unless turned off
            if !*timestamp || *buffered {
                signer = signer.timestamp_enabled(*timestamp);
            }
            if !*padding || *buffered {
                signer = signer.padding_enabled(*padding);
            }
            let mut list = vec![];
            for a in signer.required_algorithms() {
                let d = f.digest(&a).map_err(s)?;
                list.push(Digest::new(a, d));
            }
            let digests = Digests::new(list);
            let mut block = match (old_stamp, v2, stamp) {
                (true, Some(a), Some(b)) => {
                    let pairs: Vec<_> = digests.digests_data.iter().map(|d| (d.signature_algorithm_id.clone(), d.digest.clone())).collect();
                    let v = ksusig::signer::V2Signer::new(config(c(a)));
                    let v = if *buffered { v.sign(digests.clone())? } else { v.sign_with_digests(pairs.clone())? };
                    let t = if a % 2 == 0 {
                        let mut t = ksusig::signing_block::source_stamp::SourceStampSignerBuilder::new(
                            c(b).key.to_ksu(),
                            c(b).leaf.clone(),
                            algo_of(c(b)),
                        );
                        if !*timestamp || *buffered {
                            t = t.timestamp_enabled(*timestamp);
                        }
                        t.build().sign(digests)?
                    } else {
                        let t = if *timestamp && !*buffered {
                            ksusig::signer::SourceStampSigner::new(config(c(b)))
                        } else {
                            ksusig::signer::SourceStampSigner::with_timestamp(config(c(b)), *timestamp)
                        };
                        if *buffered { t.sign(digests)? } else { t.sign_with_digests(pairs)? }
                    };
                    let content = vec![
                        ValueSigningBlock::SignatureSchemeV2Block(v),
                        ValueSigningBlock::SourceStampBlock(t),
                    ];
                    if *padding {
                        SigningBlock::new_with_padding(content).map_err(s)?
                    } else {
                        SigningBlock::new(content).map_err(s)?
                    }
                }
                _ => signer.sign(digests)?,
            };
            if let SignableFile::Elf(ref e) = f {
                let secs = e.resolved_sections().map_err(s)?;
                let info = ElfSectionInfo::from_tuples(secs.iter().map(|(n, o, z)| (n.as_str(), *o, *z)).collect());
                block.content.push(ValueSigningBlock::ElfSectionInfoBlock(info));
                block = SigningBlock::new(block.content).map_err(s)?;
            }
            write_out(&f, output, &block, *buffered)?;
            Ok(Out::Unit)
        }
        Op::AddStamp { input, output, stamp, timestamp, padding } => {
            let f = open(input, &[])?;
            let old = f.signing_block().map_err(s)?.ok_or("not signed")?;
            let mut signer = ModuleSigner::stamp_only(config(&env.creds[*stamp as usize]));
            if !*timestamp || *stamp % 2 == 0 {
                signer = signer.timestamp_enabled(*timestamp);
            }
            if !*padding || *stamp % 2 == 0 {
                signer = signer.padding_enabled(*padding);
            }
            let mut list = vec![];
            for a in signer.required_algorithms() {
                let d = f.digest(&a).map_err(s)?;
                list.push(Digest::new(a, d));
            }
            let block = signer.add_source_stamp(old, Digests::new(list))?;
            write_out(&f, output, &block, true)?;
            Ok(Out::Unit)
        }
        Op::Object { input, raw, script } => object(input, *raw, script, env),
        Op::Load { cred, pw, bytes } => {
            let spec = &sc.creds[*cred as usize];
            let p = pass(sc, *cred, *pw);
            let got = match (spec.fmt, bytes) {
                (KeyFmt::P12, false) => {
                    ksusig::load_p12(&format!("/sim/keys/{cred}.p12"), &p.ok_or("no password")?)
                }
                (KeyFmt::P12, true) => {
                    let d = std::fs::read(format!("/sim/keys/{cred}.p12")).map_err(s)?;
                    ksusig::load_p12_from_bytes(&d, &p.ok_or("no password")?)
                }
                (_, false) => ksusig::load_pem(
                    &format!("/sim/keys/{cred}.key"),
                    &format!("/sim/keys/{cred}.crt"),
                    p.as_deref(),
                ),
                (_, true) => {
                    let k = std::fs::read(format!("/sim/keys/{cred}.key")).map_err(s)?;
                    let c = std::fs::read(format!("/sim/keys/{cred}.crt")).map_err(s)?;
                    ksusig::keystore::load_pem_from_bytes(&k, &c, p.as_deref())
                }
            }
            .map_err(s)?;
            if *bytes {
                // the bare key and certificate give the same
                let k = &env.creds[*cred as usize];
                for der in [k.key.pkcs8(), k.key.sec1()] {
                    let (p, alg) = ksusig::keystore::load_private_key_der(&der).map_err(s)?;
                    if p.public_key_der()? != k.spki || alg.to_u32() != k.alg {
                        return Err("another key or algorithm from the bare key".into());
                    }
                }
                if ksusig::keystore::load_certificate_der(&k.leaf).map_err(s)? != k.leaf {
                    return Err("another certificate".into());
                }
                if ksusig::keystore::load_private_key_der(&k.leaf).is_ok() || ksusig::keystore::load_certificate_der(&[]).is_ok() {
                    return Err("a key or certificate out of nothing".into());
                }
            }
            Ok(Out::Creds {
                leaf: got.certificate.clone(),
                chain: got.cert_chain.clone(),
                alg: got.algorithm.to_u32(),
                spki: got.private_key.public_key_der()?,
            })
        }
        Op::Verify { .. } => verify(op, env),
        Op::Parse { input } => {
            let d = std::fs::read(input).map_err(s)?;
            let mut out = vec![];
            out.push(SigningBlock::from_u8(&d).map(|b| Out::Block(Some(blk(&b)))));
            let f = File::open(input).map_err(s)?;
            out.push(SigningBlock::from_reader(f, d.len(), 0).map(|b| Out::Block(Some(blk(&b)))).map_err(s));
            if let Ok(b) = SigningBlock::from_u8(&d) {
                let mut around = vec![b'K'; PARSE_BEFORE];
                around.extend(&d);
                around.extend([0x50; 91]);
                let n = around.len();
                out.push(SigningBlock::from_reader(std::io::Cursor::new(around), n, 91).map(|b| Out::Block(Some(blk(&b)))).map_err(s));
                out.push(SigningBlock::new(b.content.clone()).map(|b| Out::Block(Some(blk(&b)))).map_err(s));
                out.push(SigningBlock::new_with_padding(b.content.clone()).map(|b| Out::Block(Some(blk(&b)))).map_err(s));
                let mut more = b;
                more.content_mut().push(ValueSigningBlock::BaseSigningBlock(ksusig::signing_block::RawData::new(PARSE_ID, PARSE_EXTRA.to_vec())));
                more.recalculate_size();
                out.push(Ok(Out::Block(Some(blk(&more)))));
            }
            Ok(Out::Obj(out))
        }
        Op::Observe { path, times } => {
            let mut v = vec![];
            for _ in 0..*times {
                v.push(match std::fs::read(path) {
                    Ok(d) => Ok(Some(d)),
                    Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
                    Err(e) => Err(s(e)),
                });
            }
            Ok(Out::Contents(v))
        }
        Op::Damage { .. } | Op::Copy { .. } | Op::Extract { .. } | Op::Clock { .. } | Op::Forge { .. } => Ok(Out::Unit),
    }
}

#[cfg(feature = "verify")]
fn verify(op: &Op, env: &Env) -> Res {
    use ksusig::verifier::TrustedRoots;
    let Op::Verify { input, root, via } = op else { return Err("not verify".into()) };
    match via {
        Via::Cli | Via::Process => {
            cli(&env.scen, op)?;
            Ok(Out::Verify { valid: true, v2: None, stamp: None, why: String::new() })
        }
        _ => {
            let m = Module::new(PathBuf::from(input)).map_err(s)?;
            let r = match root {
                Root::Of(i) => {
                    let mut t = TrustedRoots::new();
                    t.add_root(env.creds[*i as usize].root.clone());
                    m.verify_with_roots(t)
                }
                Root::Both(i, j) => {
                    let mut t = TrustedRoots::new();
                    for i in [i, j] {
                        t.add_root_pem(&crate::creds::pem_cert(&env.creds[*i as usize].root))?;
                    }
                    m.verify_with_roots(t)
                }
                Root::Empty => m.verify_with_roots(TrustedRoots::new()),
                Root::Builtin => m.verify_full(),
            };
            let why = |x: &Result<ksusig::VerifyResult, _>| match x {
                Ok(r) => r.warnings.join("; "),
                Err(e) => s(e),
            };
            let claims = |x: &Result<ksusig::VerifyResult, _>| {
                x.as_ref().ok().map(|r| Claims {
                    all: [r.signature_valid, r.digest_valid, r.cert_chain_valid, r.is_trusted],
                    signers: r
                        .signers
                        .iter()
                        .map(|g| Claim {
                            flags: [g.signature_valid, g.digest_valid, g.cert_chain_valid, g.is_trusted],
                            cert: g.certificate.clone(),
                            chain: g.cert_chain.clone(),
                        })
                        .collect(),
                })
            };
            Ok(Out::Verify {
                valid: r.is_valid() && (r.has_v2() || r.has_source_stamp()),
                v2: claims(&r.v2),
                stamp: claims(&r.source_stamp),
                why: format!("not valid: {} / {}", why(&r.v2), why(&r.source_stamp)),
            })
        }
    }
}
#[cfg(not(feature = "verify"))]
fn verify(_: &Op, _: &Env) -> Res {
    Err("built without verification".into())
}

fn object(input: &str, raw: bool, script: &[ObjOp], env: &Env) -> Res {
    let p = PathBuf::from(input);
    let mut m = if raw { Module::new_raw(p) } else { Module::new(p) }.map_err(s)?;
    let mut out = vec![];
    for o in script {
        out.push(match o {
            ObjOp::Digest { alg512 } => m.digest(&algo(*alg512)).map(Out::Bytes).map_err(s),
            ObjOp::Block => m.get_signing_block().map(|b| Out::Block(Some(blk(&b)))).map_err(s),
            ObjOp::Offsets => m
                .get_offsets()
                .map(|o| {
                    Out::Offsets([
                        o.start_content,
                        o.stop_content,
                        o.start_cd,
                        o.stop_cd,
                        o.start_eocd,
                        o.stop_eocd,
                    ])
                })
                .map_err(s),
            ObjOp::Raw => m.get_raw_module().map(Out::Bytes).map_err(s),
            ObjOp::Sign { cred } => {
                let c = &env.creds[*cred as usize];
                m.sign_v2(&algo_of(c), &c.leaf, &c.key.to_ksu()).map(|_| Out::Unit).map_err(s)
            }
            ObjOp::Write { to } => (|| {
                let mut w = File::create(to).map_err(s)?;
                m.write_with_signature(&mut w).map_err(s)?;
                Ok(Out::Unit)
            })(),
            ObjOp::Regions => Signable::digest_regions(&m)
                .map(|v| Out::Regions(v.into_iter().map(|r| (r.name, r.offset, r.size)).collect()))
                .map_err(s),
            ObjOp::IsSigned => Ok(Out::Bool(m.is_signed())),
            ObjOp::TraitWrite { to } => (|| {
                let b = m.get_signing_block().map_err(s)?;
                let mut w = File::create(to).map_err(s)?;
                <Module as Signable>::write_with_signature(&m, &mut w, &b).map_err(s)?;
                Ok(Out::Unit)
            })(),
        });
    }
    Ok(Out::Obj(out))
}
