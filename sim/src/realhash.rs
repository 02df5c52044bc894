//! Dispatch from a runtime-chosen algorithm to the library's hash functions.

use crate::refcrypto::Alg;
use jester_hashes::blake::blake2b::{Blake2b, Blake2bContext};
use jester_hashes::blake::blake2s::{Blake2s, Blake2sContext};
use jester_hashes::hmac::hmac;
use jester_hashes::kdf::hkdf_derive_key;
use jester_hashes::md5::MD5Hash;
use jester_hashes::sha1::SHA1Hash;
use jester_hashes::{BlockHashFunction, HashFunction, HashValue};

fn ctx_b(out: usize, key: &[u8]) -> Blake2bContext {
    Blake2bContext {
        output_len: out,
        key: key.to_vec(),
    }
}

fn ctx_s(out: usize, key: &[u8]) -> Blake2sContext {
    Blake2sContext {
        output_len: out,
        key: key.to_vec(),
    }
}

pub enum Stream {
    Md5(<MD5Hash as HashFunction>::HashState),
    Sha1(<SHA1Hash as HashFunction>::HashState),
    B2b(<Blake2b as HashFunction>::HashState, Blake2bContext),
    B2s(<Blake2s as HashFunction>::HashState, Blake2sContext),
}

impl Stream {
    pub fn new(alg: &Alg) -> Self {
        match alg {
            Alg::Md5 => Stream::Md5(MD5Hash::init_hash(&())),
            Alg::Sha1 => Stream::Sha1(SHA1Hash::init_hash(&())),
            Alg::Blake2b { out, key } => {
                let c = ctx_b(*out, key);
                Stream::B2b(Blake2b::init_hash(&c), c)
            }
            Alg::Blake2s { out, key } => {
                let c = ctx_s(*out, key);
                Stream::B2s(Blake2s::init_hash(&c), c)
            }
        }
    }

    pub fn update(&mut self, data: &[u8]) {
        match self {
            Stream::Md5(s) => MD5Hash::update_hash(s, &(), data),
            Stream::Sha1(s) => SHA1Hash::update_hash(s, &(), data),
            Stream::B2b(s, c) => Blake2b::update_hash(s, c, data),
            Stream::B2s(s, c) => Blake2s::update_hash(s, c, data),
        }
    }

    pub fn finish(mut self) -> Vec<u8> {
        match &mut self {
            Stream::Md5(s) => MD5Hash::finish_hash(s, &()).raw(),
            Stream::Sha1(s) => SHA1Hash::finish_hash(s, &()).raw(),
            Stream::B2b(s, c) => Blake2b::finish_hash(s, c).raw(),
            Stream::B2s(s, c) => Blake2s::finish_hash(s, c).raw(),
        }
    }
}

pub fn digest(alg: &Alg, data: &[u8]) -> Vec<u8> {
    match alg {
        Alg::Md5 => MD5Hash::digest_message(&(), data).raw(),
        Alg::Sha1 => SHA1Hash::digest_message(&(), data).raw(),
        Alg::Blake2b { out, key } => Blake2b::digest_message(&ctx_b(*out, key), data).raw(),
        Alg::Blake2s { out, key } => Blake2s::digest_message(&ctx_s(*out, key), data).raw(),
    }
}

pub fn mac(alg: &Alg, key: &[u8], msg: &[u8]) -> Vec<u8> {
    match alg {
        Alg::Md5 => hmac::<MD5Hash, ()>(&(), key, msg),
        Alg::Sha1 => hmac::<SHA1Hash, ()>(&(), key, msg),
        Alg::Blake2b { out, key: k } => hmac::<Blake2b, _>(&ctx_b(*out, k), key, msg),
        Alg::Blake2s { out, key: k } => hmac::<Blake2s, _>(&ctx_s(*out, k), key, msg),
    }
}

pub fn kdf(alg: &Alg, salt: &[u8], ikm: &[u8], len: usize, info: &[u8]) -> Vec<u8> {
    match alg {
        Alg::Md5 => hkdf_derive_key::<MD5Hash, ()>(&(), salt, ikm, len, info),
        Alg::Sha1 => hkdf_derive_key::<SHA1Hash, ()>(&(), salt, ikm, len, info),
        Alg::Blake2b { out, key } => hkdf_derive_key::<Blake2b, _>(&ctx_b(*out, key), salt, ikm, len, info),
        Alg::Blake2s { out, key } => hkdf_derive_key::<Blake2s, _>(&ctx_s(*out, key), salt, ikm, len, info),
    }
}

/// Block and output size as the library states them.
pub fn sizes(alg: &Alg) -> (usize, usize) {
    fn s<H: BlockHashFunction>(c: &H::Context) -> (usize, usize) {
        (H::block_size(c), H::output_size(c))
    }
    match alg {
        Alg::Md5 => s::<MD5Hash>(&()),
        Alg::Sha1 => s::<SHA1Hash>(&()),
        Alg::Blake2b { out, key } => s::<Blake2b>(&ctx_b(*out, key)),
        Alg::Blake2s { out, key } => s::<Blake2s>(&ctx_s(*out, key)),
    }
}

/// The algorithm chosen by a plan: index, output length and key length, with the key drawn from `seed`.
pub fn choose_alg(which: usize, out: i64, keylen: i64, seed: u64, min_out: i64) -> Alg {
    let mut r = crate::core::Rng::new(crate::core::mix(seed, 0x4b45));
    let fit = |v: i64, lo: i64, hi: i64| v.max(lo).min(hi) as usize;
    match which % 4 {
        0 => Alg::Md5,
        1 => Alg::Sha1,
        2 => Alg::Blake2b {
            out: fit(out, min_out, 64),
            key: r.bytes(fit(keylen, 0, 64)),
        },
        _ => Alg::Blake2s {
            out: fit(out, min_out, 32),
            key: r.bytes(fit(keylen, 0, 32)),
        },
    }
}
