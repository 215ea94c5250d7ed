//! MODEL of the part of ring that fluence-keypair and libp2p-identity use: RSA
//! PKCS#1 v1.5 signatures over SHA-256, as an ideal signature scheme.  The
//! PKCS#8 container is parsed for the modulus and the public exponent.
pub mod error {
    use std::fmt;
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Unspecified;
    impl fmt::Display for Unspecified {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("ring::error::Unspecified")
        }
    }
    impl std::error::Error for Unspecified {}
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct KeyRejected(pub &'static str);
    impl fmt::Display for KeyRejected {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(self.0)
        }
    }
    impl std::error::Error for KeyRejected {}
}

pub mod rand {
    pub trait SecureRandom {}
    #[derive(Clone, Debug)]
    pub struct SystemRandom(());
    impl SystemRandom {
        pub fn new() -> Self {
            SystemRandom(())
        }
    }
    impl SecureRandom for SystemRandom {}
}

pub mod signature {
    use super::error::*;
    use super::rand::SecureRandom;
    use std::fmt::Debug;

    pub trait KeyPair: Debug + Send + Sized + Sync {
        type PublicKey: AsRef<[u8]> + Debug + Clone + Send + Sized + Sync;
        fn public_key(&self) -> &Self::PublicKey;
    }

    #[derive(Debug)]
    pub struct RsaEncoding;
    #[derive(Debug)]
    pub struct RsaParameters;
    pub static RSA_PKCS1_SHA256: RsaEncoding = RsaEncoding;
    pub static RSA_PKCS1_2048_8192_SHA256: RsaParameters = RsaParameters;

    #[derive(Clone, Debug)]
    pub struct RsaSubjectPublicKey(Box<[u8]>);
    impl AsRef<[u8]> for RsaSubjectPublicKey {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }

    #[derive(Debug)]
    pub struct RsaKeyPair {
        public: RsaSubjectPublicKey,
        modulus_len: usize,
    }

    fn tlv<'a>(b: &mut &'a [u8], tag: u8) -> Option<&'a [u8]> {
        let s: &'a [u8] = *b;
        if s.len() < 2 || s[0] != tag {
            return None;
        }
        let (len, hdr) = if s[1] < 0x80 {
            (s[1] as usize, 2)
        } else if s[1] == 0x81 && s.len() > 2 {
            (s[2] as usize, 3)
        } else if s[1] == 0x82 && s.len() > 3 {
            ((s[2] as usize) << 8 | s[3] as usize, 4)
        } else {
            return None;
        };
        if s.len() < hdr + len {
            return None;
        }
        *b = &s[hdr + len..];
        Some(&s[hdr..hdr + len])
    }

    fn der(tag: u8, body: &[u8]) -> Vec<u8> {
        let mut v = vec![tag];
        let n = body.len();
        if n < 0x80 {
            v.push(n as u8);
        } else if n < 0x100 {
            v.extend_from_slice(&[0x81, n as u8]);
        } else {
            v.extend_from_slice(&[0x82, (n >> 8) as u8, n as u8]);
        }
        v.extend_from_slice(body);
        v
    }

    fn parse(der_in: &[u8]) -> Option<(Vec<u8>, usize)> {
        let mut b = der_in;
        let mut info = tlv(&mut b, 0x30)?;
        if !b.is_empty() {
            return None;
        }
        let v = tlv(&mut info, 0x02)?;
        if v != [0] {
            return None;
        }
        let _alg = tlv(&mut info, 0x30)?;
        let mut key = tlv(&mut info, 0x04)?;
        let mut seq = tlv(&mut key, 0x30)?;
        let v = tlv(&mut seq, 0x02)?;
        if v != [0] {
            return None;
        }
        let n = tlv(&mut seq, 0x02)?;
        let e = tlv(&mut seq, 0x02)?;
        let len = n.len() - if n[0] == 0 { 1 } else { 0 };
        if len < 256 {
            return None;
        }
        let mut body = der(0x02, n);
        body.extend(der(0x02, e));
        Some((der(0x30, &body), len))
    }

    impl RsaKeyPair {
        pub fn from_pkcs8(pkcs8: &[u8]) -> Result<Self, KeyRejected> {
            let (pk, n) = parse(pkcs8).ok_or(KeyRejected("InvalidEncoding"))?;
            oracle::memo_put(30, &pk, Some((n as u64).to_le_bytes().to_vec()));
            Ok(RsaKeyPair {
                public: RsaSubjectPublicKey(pk.into_boxed_slice()),
                modulus_len: n,
            })
        }

        pub fn public_modulus_len(&self) -> usize {
            self.modulus_len
        }

        pub fn sign(
            &self,
            _alg: &'static RsaEncoding,
            _rng: &dyn SecureRandom,
            msg: &[u8],
            signature: &mut [u8],
        ) -> Result<(), Unspecified> {
            if signature.len() != self.modulus_len {
                return Err(Unspecified);
            }
            let s = oracle::sign(1, self.public.as_ref(), msg, self.modulus_len);
            signature.copy_from_slice(&s);
            Ok(())
        }
    }

    impl KeyPair for RsaKeyPair {
        type PublicKey = RsaSubjectPublicKey;
        fn public_key(&self) -> &Self::PublicKey {
            &self.public
        }
    }

    pub struct UnparsedPublicKey<B: AsRef<[u8]>> {
        bytes: B,
    }

    impl<B: AsRef<[u8]>> UnparsedPublicKey<B> {
        pub fn new(_alg: &'static RsaParameters, bytes: B) -> Self {
            UnparsedPublicKey { bytes }
        }
        pub fn verify(&self, message: &[u8], signature: &[u8]) -> Result<(), Unspecified> {
            if oracle::verify(1, self.bytes.as_ref(), message, signature) {
                Ok(())
            } else {
                Err(Unspecified)
            }
        }
    }
}
