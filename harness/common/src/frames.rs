//! Reference header codec and key folding, straight from the documentation; shared by the
//! harness crates (no dependency on the code under test).

use proptest::prelude::*;

pub fn fold(b: &[u8; 8], len: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    while v.len() > len {
        v = v.chunks(2).map(|c| c[0] ^ c[1]).collect();
    }
    v
}
pub fn encode(key: &[u8], slen: usize, seq: u32) -> Vec<u8> {
    let n = key.len().trailing_zeros() as u8;
    let m = slen.trailing_zeros() as u8;
    let mut out = vec![(n << 6) | (m << 4)];
    out.extend_from_slice(key);
    out.extend_from_slice(&seq.to_le_bytes()[..slen]);
    out
}
pub fn frame(key: &[u8; 8], klen: usize, slen: usize, seq: u32, body: &[u8]) -> Vec<u8> {
    let mut v = encode(&fold(key, klen), slen, seq);
    v.extend_from_slice(body);
    v
}
/// key bytes, (seq len, seq), rest
pub fn decode(b: &[u8]) -> Option<(Vec<u8>, (usize, u32), Vec<u8>)> {
    let d = *b.first()?;
    if d & 0x0f != 0 || (d >> 4) & 3 == 3 {
        return None;
    }
    let klen = 1usize << (d >> 6);
    let slen = 1usize << ((d >> 4) & 3);
    if b.len() < 1 + klen + slen {
        return None;
    }
    let mut s = [0u8; 4];
    s[..slen].copy_from_slice(&b[1 + klen..1 + klen + slen]);
    Some((b[1..1 + klen].to_vec(), (slen, u32::from_le_bytes(s)), b[1 + klen + slen..].to_vec()))
}
pub fn key_is(k: &[u8], key: &[u8; 8]) -> bool {
    fold(key, k.len()) == k
}
pub fn klen() -> impl Strategy<Value = usize> {
    prop_oneof![Just(1usize), Just(2), Just(4), Just(8)]
}
pub fn slen() -> impl Strategy<Value = usize> {
    prop_oneof![Just(1usize), Just(2), Just(4)]
}
