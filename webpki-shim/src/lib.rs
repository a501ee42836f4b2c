//! Stand-in for https://github.com/Kernel-SU/webpki, built on the upstream crate.
//!
//! Only what the repository's verifier uses: `EndEntityCert::verify_for_usage`,
//! `anchor_from_trusted_cert`, `ALL_VERIFICATION_ALGS`, `ExtendedKeyUsage::code_signing()` and the
//! error variants it matches on. Path building, signature checks, validity and EKU checks are the
//! upstream crate's.
use rustls_pki_types::{CertificateDer, SignatureVerificationAlgorithm, TrustAnchor, UnixTime};

pub use upstream::ALL_VERIFICATION_ALGS;

/// Errors, in the shape of the fork.
#[derive(Debug, Clone, PartialEq, Eq)]
#[non_exhaustive]
pub enum Error {
    CertExpired { time: u64 },
    CertNotValidYet { time: u64 },
    UnknownIssuer,
    RequiredEkuNotFound(String),
    Other(upstream::Error),
}

fn map(e: upstream::Error) -> Error {
    match e {
        upstream::Error::CertExpired { time, .. } => Error::CertExpired { time: time.as_secs() },
        upstream::Error::CertNotValidYet { time, .. } => {
            Error::CertNotValidYet { time: time.as_secs() }
        }
        upstream::Error::UnknownIssuer => Error::UnknownIssuer,
        upstream::Error::RequiredEkuNotFoundContext(c) => {
            Error::RequiredEkuNotFound(format!("{c:?}"))
        }
        e => Error::Other(e),
    }
}

/// Required extended key usage.
pub struct ExtendedKeyUsage(upstream::KeyUsage);

/// id-kp-codeSigning 1.3.6.1.5.5.7.3.3 (OID contents without tag and length)
const CODE_SIGNING: &[u8] = &[0x2b, 0x06, 0x01, 0x05, 0x05, 0x07, 0x03, 0x03];

impl ExtendedKeyUsage {
    pub const fn code_signing() -> Self {
        Self(upstream::KeyUsage::required(CODE_SIGNING))
    }
}

/// End-entity certificate.
pub struct EndEntityCert<'a>(upstream::EndEntityCert<'a>);

impl<'a> TryFrom<&'a CertificateDer<'a>> for EndEntityCert<'a> {
    type Error = Error;
    fn try_from(c: &'a CertificateDer<'a>) -> Result<Self, Error> {
        upstream::EndEntityCert::try_from(c).map(Self).map_err(map)
    }
}

impl<'a> EndEntityCert<'a> {
    #[allow(clippy::too_many_arguments)]
    pub fn verify_for_usage(
        &self,
        algs: &[&dyn SignatureVerificationAlgorithm],
        anchors: &[TrustAnchor<'_>],
        intermediates: &[CertificateDer<'_>],
        now: UnixTime,
        usage: &ExtendedKeyUsage,
        crls: Option<()>,
        verify_path: Option<()>,
    ) -> Result<(), Error> {
        let _ = (crls, verify_path);
        self.0
            .verify_for_usage(algs, anchors, intermediates, now, usage.0, None, None)
            .map(|_| ())
            .map_err(map)
    }
}

/// Build a trust anchor from a trusted certificate.
pub fn anchor_from_trusted_cert<'a>(cert: &'a CertificateDer<'a>) -> Result<TrustAnchor<'a>, Error> {
    upstream::anchor_from_trusted_cert(cert).map_err(map)
}
