//! Symbolic cryptography: the primitives the double ratchet is instantiated with. Keys are terms, so that equality of
//! keys is equality of derivations, an attacker's knowledge can be closed under derivation, and every key a party
//! holds is tracked from its creation to its drop.

use crate::core::{mix, sim_rng_draws, Rng};
use jester_double_ratchet::{ConstantInputKeyRatchet, KeyDerivationFunction};
use jester_encryption::diffie_hellman::DiffieHellmanKeyExchangeScheme;
use jester_encryption::SymmetricalEncryptionScheme;
use rand::{CryptoRng, RngCore};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Term {
    /// initial root key of session n
    RootInit(u64),
    /// private key (index of the key pair)
    Priv(usize),
    /// Diffie-Hellman secret: a group element (index)
    Shared(usize),
    Root(usize, usize),
    ChainOf(usize, usize),
    Next(usize),
    MsgKey(usize),
    FreshKey(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Private,
    Shared,
    Root,
    Chain,
    Message,
}

#[derive(Clone, Debug)]
pub struct KeyPairRec {
    pub owner: usize,
    pub from_supplied_rng: bool,
    pub value: u64,
}

#[derive(Default)]
pub struct World {
    pub terms: Vec<Term>,
    /// the root derivation each term stems from
    origins: Vec<Option<(usize, usize)>>,
    index: BTreeMap<Term, usize>,
    /// group elements: a generator and the key pairs whose private keys it was raised to (sorted)
    pub elems: Vec<(u64, Vec<usize>)>,
    elem_index: BTreeMap<(u64, Vec<usize>), usize>,
    /// public keys that are not just the generator raised to one private key
    odd_publics: BTreeSet<usize>,
    /// keys alive, per owner
    pub live: BTreeMap<(usize, Kind, usize), i64>,
    pub pairs: Vec<KeyPairRec>,
    /// (party, private key index) and (party, root key, secret) of all uses
    pub root_inputs: Vec<(usize, usize, usize)>,
    pub encryptions: Vec<(usize, usize)>,
    pub decryptions: Vec<(usize, usize)>,
    encrypted_with: BTreeSet<usize>,
    decrypted_with: BTreeSet<(usize, usize)>,
    /// the first second use of a message key: for an encryption, by whom
    pub key_reuse: Option<(bool, usize)>,
    pub current: usize,
    pub corrupt: Option<u64>,
}

thread_local! {
    pub static WORLD: RefCell<World> = RefCell::new(World::default());
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

pub fn reset() {
    with(|w| *w = World::default());
}

pub fn set_current(p: usize) {
    with(|w| w.current = p);
}

impl World {
    pub fn intern(&mut self, t: Term) -> usize {
        if let Some(i) = self.index.get(&t) {
            return *i;
        }
        let i = self.terms.len();
        self.terms.push(t);
        self.origins.push(match t {
            Term::MsgKey(c) | Term::Next(c) => self.origins[c],
            Term::ChainOf(r, s) => Some((r, s)),
            _ => None,
        });
        self.index.insert(t, i);
        i
    }

    fn elem(&mut self, generator: u64, mut exponents: Vec<usize>) -> usize {
        exponents.sort_unstable();
        let key = (generator, exponents);
        if let Some(i) = self.elem_index.get(&key) {
            return *i;
        }
        let i = self.elems.len();
        self.elems.push(key.clone());
        self.elem_index.insert(key, i);
        i
    }

    fn raised(&mut self, elem: usize, pair: usize) -> usize {
        let (g, mut e) = self.elems[elem].clone();
        e.push(pair);
        self.elem(g, e)
    }

    /// Whether the element follows from the public ones with the private keys `known`: what remains when an exponent
    /// that is public is taken away has to consist of known ones.
    fn elem_known(&self, elem: usize, known: &BTreeSet<usize>) -> bool {
        let (g, e) = &self.elems[elem];
        let unknown: Vec<usize> = e.iter().filter(|p| !known.contains(p)).copied().collect();
        // the generator and the ordinary public keys
        if unknown.len() <= 1 {
            return true;
        }
        self.odd_publics.iter().any(|o| {
            let (h, f) = &self.elems[*o];
            h == g && f.iter().filter(|p| !known.contains(p)).eq(unknown.iter())
        })
    }

    pub fn live_of(&self, owner: usize, kind: Kind) -> Vec<usize> {
        let mut v = vec![];
        for ((o, k, t), n) in &self.live {
            if *o == owner && *k == kind {
                for _ in 0..(*n).max(0) {
                    v.push(*t);
                }
            }
        }
        v
    }

    pub fn all_live_of(&self, owner: usize) -> BTreeSet<usize> {
        self.live
            .iter()
            .filter(|((o, _, _), n)| *o == owner && **n > 0)
            .map(|((_, _, t), _)| *t)
            .collect()
    }

    /// All terms an attacker can derive from `known` and all public traffic. Parents have smaller indices.
    pub fn closure(&self, known: &BTreeSet<usize>) -> Vec<bool> {
        let mut k = vec![false; self.terms.len()];
        let priv_known: BTreeSet<usize> = known
            .iter()
            .filter_map(|t| match self.terms[*t] {
                Term::Priv(p) => Some(p),
                _ => None,
            })
            .collect();
        for (i, t) in self.terms.iter().enumerate() {
            k[i] = known.contains(&i)
                || match *t {
                    Term::Shared(e) => self.elem_known(e, &priv_known),
                    Term::Root(r, s) | Term::ChainOf(r, s) => k[r] && k[s],
                    Term::Next(c) | Term::MsgKey(c) => k[c],
                    _ => false,
                };
        }
        k
    }

    /// The root derivation a message key or chain key stems from.
    pub fn chain_origin(&self, term: usize) -> Option<(usize, usize)> {
        self.origins[term]
    }
}

/// A tracked key.
#[derive(Debug)]
pub struct Tracked {
    pub term: usize,
    owner: usize,
    kind: Kind,
}

impl Tracked {
    pub fn new(t: Term, kind: Kind) -> Self {
        with(|w| {
            let term = w.intern(t);
            let owner = w.current;
            *w.live.entry((owner, kind, term)).or_insert(0) += 1;
            Tracked { term, owner, kind }
        })
    }
}

impl Clone for Tracked {
    /// A further copy of the key, alive on its own.
    fn clone(&self) -> Self {
        with(|w| {
            let owner = w.current;
            *w.live.entry((owner, self.kind, self.term)).or_insert(0) += 1;
            Tracked {
                term: self.term,
                owner,
                kind: self.kind,
            }
        })
    }
}

impl PartialEq for Tracked {
    fn eq(&self, other: &Self) -> bool {
        self.term == other.term
    }
}

impl Eq for Tracked {}

impl PartialOrd for Tracked {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for Tracked {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.term.cmp(&other.term)
    }
}

impl std::hash::Hash for Tracked {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.term.hash(state)
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        let key = (self.owner, self.kind, self.term);
        let _ = WORLD.try_with(|w| {
            if let Ok(mut w) = w.try_borrow_mut() {
                let gone = match w.live.get_mut(&key) {
                    Some(n) => {
                        *n -= 1;
                        *n <= 0
                    }
                    None => false,
                };
                if gone {
                    w.live.remove(&key);
                }
            }
        });
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SPriv(pub Tracked, pub usize);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SShared(pub Tracked);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SRoot(pub Tracked);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SChain(pub Tracked);
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SKey(pub Tracked);

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SPub(usize);

impl SPub {
    pub fn generator(g: u64) -> Self {
        SPub(with(|w| w.elem(g, vec![])))
    }

    /// The public key of a key pair.
    pub fn power(pair: usize, g: u64) -> Self {
        SPub(with(|w| w.elem(g, vec![pair])))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct SymDH;

impl DiffieHellmanKeyExchangeScheme for SymDH {
    type PublicKey = SPub;
    type PrivateKey = SPriv;
    type SharedKey = SShared;

    fn generate_asymmetrical_key_pair<R>(rng: &mut R, generator: &SPub) -> (SPriv, SPub)
    where
        R: RngCore + CryptoRng,
    {
        let before = sim_rng_draws().0;
        let value = rng.next_u64();
        let after = sim_rng_draws();
        let supplied = after.0 > before && after.1 == value;
        let pair = with(|w| {
            w.pairs.push(KeyPairRec {
                owner: w.current,
                from_supplied_rng: supplied,
                value,
            });
            w.pairs.len() - 1
        });
        // equal randomness means equal keys
        let pair = with(|w| w.pairs.iter().position(|p| p.value == value).unwrap_or(pair));
        let public = with(|w| {
            let e = w.raised(generator.0, pair);
            if w.elems[e].1.len() != 1 {
                w.odd_publics.insert(e);
            }
            e
        });
        (SPriv(Tracked::new(Term::Priv(pair), Kind::Private), pair), SPub(public))
    }

    fn generate_shared_secret(private_key: &SPriv, partner_key: &SPub) -> SShared {
        let t = Term::Shared(with(|w| w.raised(partner_key.0, private_key.1)));
        SShared(Tracked::new(t, Kind::Shared))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct SymRoot;

impl KeyDerivationFunction for SymRoot {
    type ChainKey = SRoot;
    type Input = SShared;
    type OutputKey = SChain;

    fn derive_key(chain_key: SRoot, input: SShared) -> (SRoot, SChain) {
        let (r, s) = (chain_key.0.term, input.0.term);
        with(|w| {
            let p = w.current;
            w.root_inputs.push((p, r, s))
        });
        (
            SRoot(Tracked::new(Term::Root(r, s), Kind::Root)),
            SChain(Tracked::new(Term::ChainOf(r, s), Kind::Chain)),
        )
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct SymMsg;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct NoInput;

impl KeyDerivationFunction for SymMsg {
    type ChainKey = SChain;
    type Input = NoInput;
    type OutputKey = SKey;

    fn derive_key(chain_key: SChain, _input: NoInput) -> (SChain, SKey) {
        let c = chain_key.0.term;
        (
            SChain(Tracked::new(Term::Next(c), Kind::Chain)),
            SKey(Tracked::new(Term::MsgKey(c), Kind::Message)),
        )
    }
}

impl ConstantInputKeyRatchet for SymMsg {
    const INPUT: NoInput = NoInput;
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct SymEnc;

fn keystream(term: usize, n: usize) -> Vec<u8> {
    // depends on the term's structure only through its index, which is unique per derivation
    Rng::new(mix(term as u64, 0xc1f3)).bytes(n)
}

impl SymmetricalEncryptionScheme for SymEnc {
    type Key = SKey;

    fn generate_key<R>(rng: &mut R) -> SKey
    where
        R: RngCore + CryptoRng,
    {
        SKey(Tracked::new(Term::FreshKey(rng.next_u64()), Kind::Message))
    }

    fn encrypt_message(key: &SKey, message: &[u8]) -> Vec<u8> {
        with(|w| {
            let p = w.current;
            w.encryptions.push((p, key.0.term));
            if !w.encrypted_with.insert(key.0.term) && w.key_reuse.is_none() {
                w.key_reuse = Some((true, p));
            }
        });
        let ks = keystream(key.0.term, message.len());
        message.iter().zip(ks).map(|(a, b)| a ^ b).collect()
    }

    fn decrypt_message(key: &SKey, message: &[u8]) -> Vec<u8> {
        let corrupt = with(|w| {
            let p = w.current;
            w.decryptions.push((p, key.0.term));
            if !w.decrypted_with.insert((p, key.0.term)) && w.key_reuse.is_none() {
                w.key_reuse = Some((false, p));
            }
            w.corrupt
        });
        let mut m = message.to_vec();
        if let Some(c) = corrupt {
            match c % 4 {
                0 if !m.is_empty() => {
                    let i = (c / 4) as usize % m.len();
                    m[i] ^= 1 << ((c / 1024) % 8);
                }
                1 if !m.is_empty() => m.truncate((c / 4) as usize % m.len()),
                2 => m.clear(),
                _ => m.extend_from_slice(&[0xEE; 5]),
            }
        }
        let ks = keystream(key.0.term, m.len());
        m.iter().zip(ks).map(|(a, b)| a ^ b).collect()
    }
}
