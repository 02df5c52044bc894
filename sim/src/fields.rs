//! Dispatch from a runtime-chosen field to its type: the library's fields and, made with its macro, a range of
//! non-Mersenne ones.

use jester_maths::prime::*;
use jester_maths::prime_fields;
use mashup::*;
use num::traits::*;
use num_bigint::BigUint;
use std::hash::Hash;

prime_fields!(
    pub P5("5", 10),
    pub P11("11", 10),
    pub P13("13", 10),
    pub P37("37", 10),
    pub P101("101", 10),
    pub P251("251", 10),
    pub P257("257", 10),
    pub P65537("65537", 10),
    pub P30("1000000007", 10),
    pub P64("18446744073709551557", 10),
    pub P255("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
);

pub trait Fld: PrimeField + Hash + Eq + PartialOrd + std::fmt::Debug + Send + Sync + Unpin + 'static {}

impl<T> Fld for T where T: PrimeField + Hash + Eq + PartialOrd + std::fmt::Debug + Send + Sync + Unpin + 'static {}

pub trait Job {
    type Out;
    fn go<F: Fld>(self) -> Self::Out;
}

macro_rules! fields {
    ($($i:literal $t:ident $c:ident),*) => {
        pub const NAMES: &[&str] = &[$(stringify!($t)),*];
        #[allow(dead_code)]
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub enum Id { $($c = $i),* }
        pub fn dispatch<J: Job>(i: usize, job: J) -> J::Out {
            match i % NAMES.len() {
                $($i => job.go::<$t>(),)*
                _ => unreachable!(),
            }
        }
    };
}

fields!(
    0 Mersenne2 M2,
    1 Mersenne3 M3,
    2 Mersenne5 M5,
    3 Mersenne13 M13,
    4 Mersenne17 M17,
    5 Mersenne19 M19,
    6 Mersenne31 M31,
    7 Mersenne61 M61,
    8 Mersenne89 M89,
    9 Mersenne107 M107,
    10 Mersenne127 M127,
    11 IetfGroup1 G1,
    12 IetfGroup2 G2,
    13 IetfGroup3 G3,
    14 P5 P5,
    15 P11 P11,
    16 P13 P13,
    17 P37 P37,
    18 P101 P101,
    19 P251 P251,
    20 P257 P257,
    21 P65537 P65537,
    22 P30 P30,
    23 P64 P64,
    24 P255 P255
);

/// The order of each field, stated here independently of the library.
pub fn order(i: usize) -> BigUint {
    let m = |e: usize| (BigUint::from(1u32) << e) - 1u32;
    let p = |s: &str| BigUint::parse_bytes(s.as_bytes(), 10).unwrap();
    let h = |s: &str| BigUint::parse_bytes(s.replace([' ', '\n'], "").as_bytes(), 16).unwrap();
    match i % NAMES.len() {
        0 => m(2),
        1 => m(3),
        2 => m(5),
        3 => m(13),
        4 => m(17),
        5 => m(19),
        6 => m(31),
        7 => m(61),
        8 => m(89),
        9 => m(107),
        10 => m(127),
        // RFC 5114, sections 2.1 to 2.3
        11 => h("B10B8F96 A080E01D DE92DE5E AE5D54EC 52C99FBC FB06A3C6
9A6A9DCA 52D23B61 6073E286 75A23D18 9838EF1E 2EE652C0
13ECB4AE A9061123 24975C3C D49B83BF ACCBDD7D 90C4BD70
98488E9C 219A7372 4EFFD6FA E5644738 FAA31A4F F55BCCC0
A151AF5F 0DC8B4BD 45BF37DF 365C1A65 E68CFDA7 6D4DA708
DF1FB2BC 2E4A4371"),
        12 => h("AD107E1E 9123A9D0 D660FAA7 9559C51F A20D64E5 683B9FD1
B54B1597 B61D0A75 E6FA141D F95A56DB AF9A3C40 7BA1DF15
EB3D688A 309C180E 1DE6B85A 1274A0A6 6D3F8152 AD6AC212
9037C9ED EFDA4DF8 D91E8FEF 55B7394B 7AD5B7D0 B6C12207
C9F98D11 ED34DBF6 C6BA0B2C 8BBC27BE 6A00E0A0 B9C49708
B3BF8A31 70918836 81286130 BC8985DB 1602E714 415D9330
278273C7 DE31EFDC 7310F712 1FD5A074 15987D9A DC0A486D
CDF93ACC 44328387 315D75E1 98C641A4 80CD86A1 B9E587E8
BE60E69C C928B2B9 C52172E4 13042E9B 23F10B0E 16E79763
C9B53DCF 4BA80A29 E3FB73C1 6B8E75B9 7EF363E2 FFA31F71
CF9DE538 4E71B81C 0AC4DFFE 0C10E64F"),
        13 => h("87A8E61D B4B6663C FFBBD19C 65195999 8CEEF608 660DD0F2
5D2CEED4 435E3B00 E00DF8F1 D61957D4 FAF7DF45 61B2AA30
16C3D911 34096FAA 3BF4296D 830E9A7C 209E0C64 97517ABD
5A8A9D30 6BCF67ED 91F9E672 5B4758C0 22E0B1EF 4275BF7B
6C5BFC11 D45F9088 B941F54E B1E59BB8 BC39A0BF 12307F5C
4FDB70C5 81B23F76 B63ACAE1 CAA6B790 2D525267 35488A0E
F13C6D9A 51BFA4AB 3AD83477 96524D8E F6A167B5 A41825D9
67E144E5 14056425 1CCACB83 E6B486F6 B3CA3F79 71506026
C0B857F6 89962856 DED4010A BD0BE621 C3A3960A 54E710C3
75F26375 D7014103 A4B54330 C198AF12 6116D227 6E11715F
693877FA D7EF09CA DB094AE9 1E1A1597"),
        14 => p("5"),
        15 => p("11"),
        16 => p("13"),
        17 => p("37"),
        18 => p("101"),
        19 => p("251"),
        20 => p("257"),
        21 => p("65537"),
        22 => p("1000000007"),
        23 => p("18446744073709551557"),
        _ => p("57896044618658097711785492504343953926634992332820282019728792003956564819949"),
    }
}

/// Fields of the library, as opposed to the ones made here.
pub const LIBRARY: usize = 14;

/// `(base ^ exp) mod p` by squaring, independent of the library under test.
pub fn power(base: &BigUint, exp: &BigUint, p: &BigUint) -> BigUint {
    if p.bits() > 300 {
        return base.modpow(exp, p);
    }
    let mut r = BigUint::from(1u32) % p;
    for byte in exp.to_bytes_be() {
        for bit in (0..8).rev() {
            r = &r * &r % p;
            if byte >> bit & 1 == 1 {
                r = r * base % p;
            }
        }
    }
    r
}

/// A number below `p` drawn from the harness's PRNG.
pub fn random_below(r: &mut crate::core::Rng, p: &BigUint) -> BigUint {
    let bits = p.bits();
    loop {
        let mut b = r.bytes((bits + 7) / 8);
        if bits % 8 != 0 {
            b[0] &= (1u16 << (bits % 8)).wrapping_sub(1) as u8;
        }
        let v = BigUint::from_bytes_be(&b);
        if v < *p {
            return v;
        }
    }
}
