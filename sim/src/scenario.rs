//! A scenario: one simulated history. It is what a seed expands to, what gets minimised and what
//! a replay file holds.
use crate::content::{Damage, FileSpec};
use crate::creds::CredSpec;
use crate::world::{Crash, Event, Fault};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub family: String,
    pub seed: u64,
    /// wall clock at the start, seconds since the epoch
    pub clock: i64,
    /// nanoseconds every system call takes
    pub tick: u64,
    pub files: BTreeMap<String, FileSpec>,
    pub creds: Vec<CredSpec>,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Step {
    /// what each concurrent actor does
    pub ops: Vec<Op>,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub events: Vec<Event>,
    #[serde(default)]
    pub crash: Option<Crash>,
    /// (system call number, actor that runs from there on)
    #[serde(default)]
    pub preempt: Vec<(u64, u32)>,
    #[serde(default)]
    pub first: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Via {
    /// the command line
    Cli,
    /// the whole process, exit status included
    Process,
    /// the format-independent wrapper
    Signable,
    /// the module / ELF type itself
    Direct,
    /// the generic reader functions
    Reader,
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub enum Pw {
    #[default]
    Right,
    Wrong,
    Missing,
    /// without its last character
    Short,
    /// with upper and lower case swapped, or other first character
    Case,
    /// the empty password
    Empty,
    /// with a blank behind
    Blank,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Sign { input: String, output: String, v2: u32, stamp: Option<u32>, sections: Vec<String>, pw: Pw, #[serde(default)] spw: Pw, process: bool },
    Digest { input: String, alg512: bool, via: Via, base64: bool, sections: Vec<String> },
    Dump { input: String, output: String, sections: Vec<String>, process: bool },
    Inspect { input: String },
    LibSign {
        input: String,
        output: String,
        v2: Option<u32>,
        stamp: Option<u32>,
        timestamp: bool,
        padding: bool,
        sections: Vec<String>,
        /// through a buffered writer
        buffered: bool,
        /// through the older stamp signer of the format module
        old_stamp: bool,
    },
    AddStamp { input: String, output: String, stamp: u32, timestamp: bool, padding: bool },
    Object { input: String, raw: bool, script: Vec<ObjOp> },
    Load { cred: u32, pw: Pw, bytes: bool },
    Verify { input: String, root: Root, via: Via },
    /// the info command
    Info { input: String, process: bool },
    Parse { input: String },
    Observe { path: String, times: u32 },
    Damage { path: String, damage: Vec<Damage> },
    Copy { from: String, to: String },
    /// the signing block of a file, alone
    Extract { from: String, to: String },
    Clock { secs: i64 },
    /// somebody rebuilds the signing block of a module without the signer's key
    Forge { path: String, cred: u32, kind: ForgeKind },
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum ForgeKind {
    /// other payload, right digests, no signature at all
    NoSignatures,
    /// other payload, an empty list of signers
    NoSigners,
    /// other payload, an empty list of digests, old signature
    NoDigests,
    /// other payload and digests, signed with the forger's key, certificate of the victim
    OtherKey,
    /// as before, with the victim's public key in the block
    OtherKeyVictimSpki,
    /// other payload and digests, forger's key and certificate, victim's chain
    OtherLeaf,
    /// other payload, digests for it next to the old ones
    ExtraDigest,
    /// other payload, unknown algorithm numbers
    UnknownAlgorithm,
    /// other payload, old signature kept over new digests
    StaleSignature,
    /// second signer by the forger, other payload
    SecondSigner,
    /// only a stamp made by the forger
    StampOnly,
    /// other payload, everything by the forger
    OwnChain,
    /// as before, with the victim's certificates behind
    OwnChainAndTheirs,
    /// other payload, forger's key, the trusted root as certificate
    RootAsLeaf,
    /// other payload, forger's certificates, victim's key and old signature
    OtherLeafVictimKey,
    /// same payload, another signer after / before the victim / in a second list
    AddSigner,
    AddSignerFirst,
    AddSignerPair,
    /// same payload, the forger's stamp
    AddStamp,
    /// other payload, signed anew by the signer, under the old stamp
    OldStamp,
    /// other payload, the signing block as it was
    SameBlock,
    /// same payload, a second signature that does not verify
    BadSignatureToo,
    /// same payload, another signer with the forger's key and the victim's certificates / none / of no digest, before or after the victim
    AddUnbound { first: bool },
    AddNoCerts { first: bool },
    AddNoDigest { first: bool },
    /// same payload, a stamp with the forger's key and the victim's certificate
    AddStampUnbound,
    /// same payload, a stamp by the signer of a wrong digest / of no digest / that does not verify
    StampBadDigest,
    StampNoDigest,
    StampBadSignature,
    /// the signer itself signs a digest that is too short, too long or wrong
    SignerBadDigest { len: u8 },
    /// the signer itself signs a digest for another algorithm only
    SignerNoDigest,
    /// the signer itself leaves the intermediate certificates out / turns them round
    SignerShortChain,
    SignerReversedChain,
    /// other payload, the forger's key, and the victim's certificate or root with that key put into it
    GraftLeaf,
    GraftRoot,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Root {
    /// the trust anchor of this credential
    Of(u32),
    /// the trust anchors of these two
    Both(u32, u32),
    Builtin,
    /// nothing is trusted
    Empty,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ObjOp {
    Digest { alg512: bool },
    Block,
    Offsets,
    Raw,
    Sign { cred: u32 },
    Write { to: String },
    Regions,
    IsSigned,
    /// through the trait: replace the signature with the current block
    TraitWrite { to: String },
}

impl Op {
    pub fn env(&self) -> bool {
        matches!(self, Op::Damage { .. } | Op::Copy { .. } | Op::Extract { .. } | Op::Clock { .. } | Op::Forge { .. })
    }
    pub fn name(&self) -> &'static str {
        match self {
            Op::Sign { .. } => "sign",
            Op::Digest { .. } => "digest",
            Op::Dump { .. } => "dump",
            Op::Inspect { .. } => "inspect",
            Op::LibSign { .. } => "lib-sign",
            Op::AddStamp { .. } => "add-stamp",
            Op::Object { .. } => "object",
            Op::Load { .. } => "load-credentials",
            Op::Verify { .. } => "verify",
            Op::Info { .. } => "info",
            Op::Parse { .. } => "parse",
            Op::Observe { .. } => "observe",
            Op::Damage { .. } => "env-damage",
            Op::Copy { .. } => "env-copy",
            Op::Extract { .. } => "env-extract",
            Op::Clock { .. } => "env-clock",
            Op::Forge { .. } => "env-forge",
        }
    }
}
