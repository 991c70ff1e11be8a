//! Reference HMAC / PBKDF2 / SCRAM arithmetic, composed from the plain hash functions.
use ring::digest::{Algorithm, Context};

pub fn hash(alg: &'static Algorithm, parts: &[&[u8]]) -> Vec<u8> {
    let mut c = Context::new(alg);
    for p in parts {
        c.update(p);
    }
    c.finish().as_ref().to_vec()
}

/// RFC 2104
pub fn hmac(alg: &'static Algorithm, key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let block = alg.block_len();
    let mut k = if key.len() > block { hash(alg, &[key]) } else { key.to_vec() };
    k.resize(block, 0);
    let ipad: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    let opad: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    let mut c = Context::new(alg);
    c.update(&ipad);
    for p in parts {
        c.update(p);
    }
    let inner = c.finish();
    hash(alg, &[&opad, inner.as_ref()])
}

/// RFC 8018, one output block (the length of the hash)
pub fn pbkdf2(alg: &'static Algorithm, password: &[u8], salt: &[u8], iterations: u32) -> Vec<u8> {
    let mut u = hmac(alg, password, &[salt, &[0, 0, 0, 1]]);
    let mut out = u.clone();
    for _ in 1..iterations {
        u = hmac(alg, password, &[&u]);
        for (o, b) in out.iter_mut().zip(&u) {
            *o ^= b;
        }
    }
    out
}
