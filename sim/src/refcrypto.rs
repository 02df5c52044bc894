//! Independent implementations of the hash functions (RFC 1321, RFC 3174, RFC 7693), HMAC (RFC 2104) and HKDF
//! (RFC 5869), written for this harness from the specifications. Compared with Python's hashlib by tools/selftest.py.

use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Alg {
    Md5,
    Sha1,
    Blake2b { out: usize, key: Vec<u8> },
    Blake2s { out: usize, key: Vec<u8> },
}

impl Alg {
    pub fn block(&self) -> usize {
        match self {
            Alg::Blake2b { .. } => 128,
            _ => 64,
        }
    }

    pub fn out(&self) -> usize {
        match self {
            Alg::Md5 => 16,
            Alg::Sha1 => 20,
            Alg::Blake2b { out, .. } | Alg::Blake2s { out, .. } => *out,
        }
    }

    pub fn text(&self) -> String {
        match self {
            Alg::Md5 => "MD5".into(),
            Alg::Sha1 => "SHA-1".into(),
            Alg::Blake2b { out, key } => format!("BLAKE2b({} bytes, key of {})", out, key.len()),
            Alg::Blake2s { out, key } => format!("BLAKE2s({} bytes, key of {})", out, key.len()),
        }
    }
}

enum St {
    Md5([u32; 4]),
    Sha1([u32; 5]),
    B2b([u64; 8]),
    B2s([u32; 8]),
}

pub struct Hasher {
    alg: Alg,
    st: St,
    /// bytes absorbed, not counting those in `buf`
    total: u128,
    buf: Vec<u8>,
}

const IV64: [u64; 8] = [
    0x6a09e667f3bcc908,
    0xbb67ae8584caa73b,
    0x3c6ef372fe94f82b,
    0xa54ff53a5f1d36f1,
    0x510e527fade682d1,
    0x9b05688c2b3e6c1f,
    0x1f83d9abfb41bd6b,
    0x5be0cd19137e2179,
];

const SIGMA: [&str; 10] = [
    "0123456789abcdef",
    "ea489fd61c02b753",
    "b8c052fdae367194",
    "7931dcbe265a40f8",
    "905724afe1bc683d",
    "2c6a0b834d75fe19",
    "c51fed4a0763928b",
    "db7ec13950f4862a",
    "6fe9b308c2d714a5",
    "a2847615fb9e3cd0",
];

fn sigma() -> &'static [[usize; 16]; 10] {
    static S: OnceLock<[[usize; 16]; 10]> = OnceLock::new();
    S.get_or_init(|| {
        let mut out = [[0; 16]; 10];
        for (r, s) in SIGMA.iter().enumerate() {
            for (i, c) in s.bytes().enumerate() {
                out[r][i] = (c as char).to_digit(16).unwrap() as usize;
            }
        }
        out
    })
}

fn md5_table() -> &'static [u32; 64] {
    static T: OnceLock<[u32; 64]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 64];
        for (i, v) in t.iter_mut().enumerate() {
            *v = ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32;
        }
        t
    })
}

fn md5_block(s: &mut [u32; 4], blk: &[u8]) {
    const R: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let t = md5_table();
    let mut x = [0u32; 16];
    for i in 0..16 {
        x[i] = u32::from_le_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
    }
    let (mut a, mut b, mut c, mut d) = (s[0], s[1], s[2], s[3]);
    for i in 0..64 {
        let (f, k) = match i / 16 {
            0 => ((b & c) | (!b & d), i),
            1 => ((b & d) | (c & !d), (5 * i + 1) & 15),
            2 => (b ^ c ^ d, (3 * i + 5) & 15),
            _ => (c ^ (b | !d), (7 * i) & 15),
        };
        let v = a.wrapping_add(f).wrapping_add(x[k]).wrapping_add(t[i]);
        let n = b.wrapping_add(v.rotate_left(R[i / 16][i & 3]));
        a = d;
        d = c;
        c = b;
        b = n;
    }
    s[0] = s[0].wrapping_add(a);
    s[1] = s[1].wrapping_add(b);
    s[2] = s[2].wrapping_add(c);
    s[3] = s[3].wrapping_add(d);
}

fn sha1_block(s: &mut [u32; 5], blk: &[u8]) {
    let mut w = [0u32; 80];
    for i in 0..16 {
        w[i] = u32::from_be_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
    }
    for i in 16..80 {
        w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
    }
    let [mut a, mut b, mut c, mut d, mut e] = *s;
    for (i, wi) in w.iter().enumerate() {
        let (f, k) = match i / 20 {
            0 => ((b & c) | (!b & d), 0x5a827999),
            1 => (b ^ c ^ d, 0x6ed9eba1),
            2 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdcu32),
            _ => (b ^ c ^ d, 0xca62c1d6),
        };
        let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
        e = d;
        d = c;
        c = b.rotate_left(30);
        b = a;
        a = t;
    }
    for (x, y) in s.iter_mut().zip([a, b, c, d, e]) {
        *x = x.wrapping_add(y);
    }
}

const MIX: [[usize; 4]; 8] = [
    [0, 4, 8, 12],
    [1, 5, 9, 13],
    [2, 6, 10, 14],
    [3, 7, 11, 15],
    [0, 5, 10, 15],
    [1, 6, 11, 12],
    [2, 7, 8, 13],
    [3, 4, 9, 14],
];

fn b2b_block(h: &mut [u64; 8], blk: &[u8], t: u128, last: bool) {
    let sg = sigma();
    let mut m = [0u64; 16];
    for i in 0..16 {
        let mut w = [0u8; 8];
        w.copy_from_slice(&blk[8 * i..8 * i + 8]);
        m[i] = u64::from_le_bytes(w);
    }
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV64);
    v[12] ^= t as u64;
    v[13] ^= (t >> 64) as u64;
    if last {
        v[14] = !v[14];
    }
    for r in 0..12 {
        for (g, [a, b, c, d]) in MIX.iter().copied().enumerate() {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[sg[r % 10][2 * g]]);
            v[d] = (v[d] ^ v[a]).rotate_right(32);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(24);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[sg[r % 10][2 * g + 1]]);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(63);
        }
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

fn b2s_block(h: &mut [u32; 8], blk: &[u8], t: u128, last: bool) {
    let sg = sigma();
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([blk[4 * i], blk[4 * i + 1], blk[4 * i + 2], blk[4 * i + 3]]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    for i in 0..8 {
        v[8 + i] = (IV64[i] >> 32) as u32;
    }
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    if last {
        v[14] = !v[14];
    }
    for r in 0..10 {
        for (g, [a, b, c, d]) in MIX.iter().copied().enumerate() {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[sg[r][2 * g]]);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[sg[r][2 * g + 1]]);
            v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(7);
        }
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

impl Hasher {
    pub fn new(alg: &Alg) -> Self {
        let mut buf = vec![];
        let st = match alg {
            Alg::Md5 => St::Md5([0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]),
            Alg::Sha1 => St::Sha1([0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]),
            Alg::Blake2b { out, key } => {
                let mut h = IV64;
                h[0] ^= 0x01010000 ^ ((key.len() as u64) << 8) ^ (*out as u64);
                if !key.is_empty() {
                    buf.extend_from_slice(key);
                    buf.resize(128, 0);
                }
                St::B2b(h)
            }
            Alg::Blake2s { out, key } => {
                let mut h = [0u32; 8];
                for i in 0..8 {
                    h[i] = (IV64[i] >> 32) as u32;
                }
                h[0] ^= 0x01010000 ^ ((key.len() as u32) << 8) ^ (*out as u32);
                if !key.is_empty() {
                    buf.extend_from_slice(key);
                    buf.resize(64, 0);
                }
                St::B2s(h)
            }
        };
        Hasher {
            alg: alg.clone(),
            st,
            total: 0,
            buf,
        }
    }

    fn block(&mut self, blk: &[u8]) {
        self.total += blk.len() as u128;
        let t = self.total;
        match &mut self.st {
            St::Md5(s) => md5_block(s, blk),
            St::Sha1(s) => sha1_block(s, blk),
            St::B2b(h) => b2b_block(h, blk, t, false),
            St::B2s(h) => b2s_block(h, blk, t, false),
        }
    }

    pub fn update(&mut self, mut data: &[u8]) {
        let bs = self.alg.block();
        // BLAKE2 must hold back a full block, as it may be the last one
        let blake = matches!(self.st, St::B2b(_) | St::B2s(_));
        loop {
            if !self.buf.is_empty() || data.len() < bs || (blake && data.len() == bs) {
                let n = (bs - self.buf.len()).min(data.len());
                self.buf.extend_from_slice(&data[..n]);
                data = &data[n..];
                if self.buf.len() == bs && (!blake || !data.is_empty()) {
                    let b = std::mem::take(&mut self.buf);
                    self.block(&b);
                }
                if data.is_empty() {
                    return;
                }
            } else {
                self.block(&data[..bs]);
                data = &data[bs..];
                if data.is_empty() {
                    return;
                }
            }
        }
    }

    pub fn finish(mut self) -> Vec<u8> {
        let bs = self.alg.block();
        if let St::B2b(_) | St::B2s(_) = self.st {
            let t = self.total + self.buf.len() as u128;
            let mut b = self.buf.clone();
            b.resize(bs, 0);
            let mut out = vec![];
            match &mut self.st {
                St::B2b(h) => {
                    b2b_block(h, &b, t, true);
                    h.iter().for_each(|w| out.extend_from_slice(&w.to_le_bytes()));
                }
                St::B2s(h) => {
                    b2s_block(h, &b, t, true);
                    h.iter().for_each(|w| out.extend_from_slice(&w.to_le_bytes()));
                }
                _ => unreachable!(),
            }
            out.truncate(self.alg.out());
            return out;
        }
        let bits = ((self.total + self.buf.len() as u128) * 8) as u64;
        let mut pad = vec![0x80u8];
        while (self.buf.len() + pad.len()) % 64 != 56 {
            pad.push(0);
        }
        match self.st {
            St::Md5(_) => pad.extend_from_slice(&bits.to_le_bytes()),
            _ => pad.extend_from_slice(&bits.to_be_bytes()),
        }
        self.update(&pad);
        let mut out = vec![];
        match &self.st {
            St::Md5(s) => s.iter().for_each(|w| out.extend_from_slice(&w.to_le_bytes())),
            St::Sha1(s) => s.iter().for_each(|w| out.extend_from_slice(&w.to_be_bytes())),
            _ => unreachable!(),
        }
        out
    }
}

pub fn digest(alg: &Alg, data: &[u8]) -> Vec<u8> {
    let mut h = Hasher::new(alg);
    h.update(data);
    h.finish()
}

pub fn hmac(alg: &Alg, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > alg.block() { digest(alg, key) } else { key.to_vec() };
    k.resize(alg.block(), 0);
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend(digest(alg, &inner));
    digest(alg, &outer)
}

pub fn hkdf(alg: &Alg, salt: &[u8], ikm: &[u8], len: usize, info: &[u8]) -> Vec<u8> {
    let prk = hmac(alg, salt, ikm);
    let mut okm: Vec<u8> = vec![];
    let mut t: Vec<u8> = vec![];
    let mut i = 0u32;
    while okm.len() < len {
        i += 1;
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i as u8);
        t = hmac(alg, &prk, &m);
        okm.extend_from_slice(&t);
    }
    okm.truncate(len);
    okm
}

/// Read a request per line - algorithm, output length, key, mode, arguments in hexadecimal - and answer in hexadecimal.
pub fn selftest() {
    use std::io::BufRead;
    let un = |s: &str| -> Vec<u8> {
        let s = s.trim_start_matches('x');
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    };
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split_whitespace().collect();
        let out: usize = f[1].parse().unwrap();
        let alg = match f[0] {
            "md5" => Alg::Md5,
            "sha1" => Alg::Sha1,
            "blake2b" => Alg::Blake2b { out, key: un(f[2]) },
            _ => Alg::Blake2s { out, key: un(f[2]) },
        };
        let r = match f[3] {
            "digest" => digest(&alg, &un(f[4])),
            "hmac" => hmac(&alg, &un(f[4]), &un(f[5])),
            _ => hkdf(&alg, &un(f[4]), &un(f[5]), f[7].parse().unwrap(), &un(f[6])),
        };
        println!("{}", r.iter().map(|b| format!("{:02x}", b)).collect::<String>());
    }
}
