//! C01 header wire format, C02 key and sequence algebra, C03 minimum key length.

use postcard_rpc::{
    header::{VarHeader, VarKey, VarKeyKind, VarSeq, VarSeqKind},
    server::min_key_needed,
    Key, Key1, Key2, Key4, TooSmall,
};
use serde::{Deserialize, Serialize};
use vcommon::{ensure, ensure_eq, proptest::prelude::*, Outcome, Run};

pub fn key8(b: [u8; 8]) -> Key {
    unsafe { Key::from_bytes(b) }
}

/// Reference folding, straight from the documentation.
pub fn fold(b: &[u8; 8], len: usize) -> Vec<u8> {
    let [a, b_, c, d, e, f, g, h] = *b;
    match len {
        8 => b.to_vec(),
        4 => vec![a ^ b_, c ^ d, e ^ f, g ^ h],
        2 => vec![a ^ b_ ^ c ^ d, e ^ f ^ g ^ h],
        1 => vec![a ^ b_ ^ c ^ d ^ e ^ f ^ g ^ h],
        _ => unreachable!(),
    }
}

/// fold an already folded key further, by XORing adjacent bytes
pub fn fold_more(mut v: Vec<u8>, len: usize) -> Vec<u8> {
    while v.len() > len {
        v = v.chunks(2).map(|c| c[0] ^ c[1]).collect();
    }
    v
}

pub fn kkind(len: usize) -> VarKeyKind {
    match len {
        1 => VarKeyKind::Key1,
        2 => VarKeyKind::Key2,
        4 => VarKeyKind::Key4,
        8 => VarKeyKind::Key8,
        _ => unreachable!(),
    }
}
pub fn kind_len(k: VarKeyKind) -> usize {
    match k {
        VarKeyKind::Key1 => 1,
        VarKeyKind::Key2 => 2,
        VarKeyKind::Key4 => 4,
        VarKeyKind::Key8 => 8,
    }
}
pub fn skind(len: usize) -> VarSeqKind {
    match len {
        1 => VarSeqKind::Seq1,
        2 => VarSeqKind::Seq2,
        4 => VarSeqKind::Seq4,
        _ => unreachable!(),
    }
}
pub fn key_bytes(k: &VarKey) -> Vec<u8> {
    match k {
        VarKey::Key1(k) => vec![k.to_bytes()],
        VarKey::Key2(k) => k.to_bytes().to_vec(),
        VarKey::Key4(k) => k.to_bytes().to_vec(),
        VarKey::Key8(k) => k.to_bytes().to_vec(),
    }
}
pub fn seq_parts(s: &VarSeq) -> (usize, u32) {
    match s {
        VarSeq::Seq1(v) => (1, *v as u32),
        VarSeq::Seq2(v) => (2, *v as u32),
        VarSeq::Seq4(v) => (4, *v),
    }
}

/// Build any VarKey of `len` bytes with the given bytes: choose an 8-byte key that folds to it.
/// The folding used for the construction is undone by the reference check in the caller.
fn varkey(len: usize, bytes: &[u8]) -> VarKey {
    // put byte i at the first position of its group, zero elsewhere: folds to itself
    let mut b = [0u8; 8];
    let stride = 8 / len;
    for i in 0..len {
        b[i * stride] = bytes[i];
    }
    let k = key8(b);
    match len {
        1 => VarKey::Key1(Key1::from_key8(k)),
        2 => VarKey::Key2(Key2::from_key8(k)),
        4 => VarKey::Key4(Key4::from_key8(k)),
        8 => VarKey::Key8(k),
        _ => unreachable!(),
    }
}

pub fn varseq(len: usize, v: u32) -> VarSeq {
    match len {
        1 => VarSeq::Seq1(v as u8),
        2 => VarSeq::Seq2(v as u16),
        4 => VarSeq::Seq4(v),
        _ => unreachable!(),
    }
}

/// Reference encoder
pub fn ref_encode(key: &[u8], slen: usize, seq: u32) -> Vec<u8> {
    let n = key.len().trailing_zeros() as u8;
    let m = slen.trailing_zeros() as u8;
    let mut out = vec![(n << 6) | (m << 4)];
    out.extend_from_slice(key);
    out.extend_from_slice(&seq.to_le_bytes()[..slen]);
    out
}

/// Reference decoder: key bytes, (seq len, seq), rest
pub fn ref_decode(b: &[u8]) -> Option<(Vec<u8>, (usize, u32), Vec<u8>)> {
    let d = *b.first()?;
    if d & 0x0f != 0 || (d >> 4) & 3 == 3 {
        return None;
    }
    let klen = 1usize << (d >> 6);
    let slen = 1usize << ((d >> 4) & 3);
    if b.len() < 1 + klen + slen {
        return None;
    }
    let mut s = [0u8; 4];
    s[..slen].copy_from_slice(&b[1 + klen..1 + klen + slen]);
    Some((b[1..1 + klen].to_vec(), (slen, u32::from_le_bytes(s)), b[1 + klen + slen..].to_vec()))
}

/// Bytes with plenty of zeros, repeats and boundary values
pub fn spicy_byte() -> impl Strategy<Value = u8> {
    prop_oneof![4 => any::<u8>(), 1 => Just(0u8), 1 => Just(1u8), 1 => Just(0x7f), 1 => Just(0x80), 1 => Just(0xff)]
}
pub fn spicy_u32() -> impl Strategy<Value = u32> {
    prop_oneof![
        4 => any::<u32>(),
        2 => 0u32..520,
        1 => (0u32..4).prop_map(|d| 0xffu32.wrapping_add(d)),
        1 => (0u32..4).prop_map(|d| 0xfffeu32.wrapping_add(d)),
        1 => (0u32..4).prop_map(|d| 0xffff_fffeu32.wrapping_add(d)),
        1 => any::<u8>().prop_map(|b| (b as u32) << 8),
        1 => any::<u16>().prop_map(|b| (b as u32) << 16),
    ]
}
pub fn klen() -> impl Strategy<Value = usize> {
    prop_oneof![Just(1usize), Just(2), Just(4), Just(8)]
}
pub fn slen() -> impl Strategy<Value = usize> {
    prop_oneof![Just(1usize), Just(2), Just(4)]
}
pub fn kb8() -> impl Strategy<Value = [u8; 8]> {
    proptest_array8()
}
fn proptest_array8() -> impl Strategy<Value = [u8; 8]> {
    (
        spicy_byte(), spicy_byte(), spicy_byte(), spicy_byte(),
        spicy_byte(), spicy_byte(), spicy_byte(), spicy_byte(),
    )
        .prop_map(|(a, b, c, d, e, f, g, h)| [a, b, c, d, e, f, g, h])
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct HdrCase {
    klen: usize,
    key: [u8; 8],
    slen: usize,
    seq: u32,
    payload: Vec<u8>,
    buf_fill: u8,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Bytes(Vec<u8>);

fn check_header(h: &VarHeader, key: &[u8], slen: usize, seq: u32, payload: &[u8], fill: u8) -> Result<(), String> {
    let want = ref_encode(key, slen, seq);
    let got = h.write_to_vec();
    ensure_eq!(got, want, "write_to_vec of {h:?}");
    // fixed-slice encoder: every buffer size from 0 to beyond
    for n in 0..=want.len() + 3 {
        let mut buf = vec![fill; n];
        let res = h.write_to_slice(&mut buf);
        if n < want.len() {
            ensure!(res.is_none(), "write_to_slice claimed success in {n} bytes, header needs {}", want.len());
        } else {
            let Some((used, rest)) = res else {
                return Err(format!("write_to_slice failed in {n} bytes, header needs {}", want.len()));
            };
            ensure_eq!(used.to_vec(), want, "write_to_slice used part of {h:?}");
            ensure_eq!(rest.len(), n - want.len(), "write_to_slice remaining length");
            ensure!(rest.iter().all(|b| *b == fill), "write_to_slice modified bytes past the header");
            ensure!(buf[want.len()..].iter().all(|b| *b == fill), "bytes past the header modified");
            ensure_eq!(buf[..want.len()].to_vec(), want, "buffer content");
        }
    }
    // decode
    let mut wire = want.clone();
    wire.extend_from_slice(payload);
    let Some((h2, body)) = VarHeader::take_from_slice(&wire) else {
        return Err(format!("encoded header {want:02x?} does not decode"));
    };
    ensure_eq!(key_bytes(&h2.key), key.to_vec(), "decoded key");
    ensure_eq!(seq_parts(&h2.seq_no), (slen, seq), "decoded seq");
    ensure_eq!(body.to_vec(), payload.to_vec(), "decoded payload");
    ensure!(h2 == *h, "decoded header compares unequal to the encoded one");
    // every truncation is rejected
    for n in 0..want.len() {
        ensure!(
            VarHeader::take_from_slice(&want[..n]).is_none(),
            "truncated header ({n} of {} bytes) was accepted", want.len()
        );
    }
    Ok(())
}

pub fn c01(run: &mut Run) {
    run.assume("Reference codec written from the documented 0bNNMM_VVVV layout.");
    run.check(
        "encode",
        "random key bytes/length, seq/width, payload; both encoders, all buffer sizes, all truncations; non-trivial = non-zero key and seq and a payload",
        600_000,
        6_000_000,
        || (klen(), kb8(), slen(), spicy_u32(), prop::collection::vec(spicy_byte(), 0..24), any::<u8>()).prop_map(
            |(klen, key, slen, seq, payload, buf_fill)| HdrCase { klen, key, slen, seq, payload, buf_fill },
        ),
        |c: &HdrCase| {
            let kb = &c.key[..c.klen];
            let k = varkey(c.klen, kb);
            ensure_eq!(key_bytes(&k), kb.to_vec(), "constructed key");
            let seq = match c.slen { 1 => c.seq & 0xff, 2 => c.seq & 0xffff, _ => c.seq };
            let h = VarHeader { key: k, seq_no: varseq(c.slen, seq) };
            check_header(&h, kb, c.slen, seq, &c.payload, c.buf_fill)?;
            let nt = kb.iter().any(|b| *b != 0) && seq != 0 && !c.payload.is_empty();
            Ok(Outcome::new(nt).label(c.slen == 4, "seq4").label(c.klen == 8, "key8").label(c.klen == 1, "key1"))
        },
    );
    run.check(
        "decode",
        "arbitrary bytes biased to valid discriminants; decoder must equal the reference decoder (accept/reject, fields, rest) and re-encode identically; non-trivial = at least 3 bytes",
        2_000_000,
        20_000_000,
        || {
            prop_oneof![
                1 => prop::collection::vec(spicy_byte(), 0..20),
                3 => (0u8..16, prop_oneof![8 => Just(0u8), 1 => 0u8..16], prop::collection::vec(spicy_byte(), 0..20))
                    .prop_map(|(hi, lo, mut v)| { v.insert(0, (hi << 4) | lo); v }),
            ]
            .prop_map(Bytes)
        },
        |c: &Bytes| {
            let want = ref_decode(&c.0);
            let got = VarHeader::take_from_slice(&c.0);
            match (&want, got) {
                (None, None) => {}
                (Some((k, s, rest)), Some((h, body))) => {
                    ensure_eq!(key_bytes(&h.key), *k, "key");
                    ensure_eq!(seq_parts(&h.seq_no), *s, "seq");
                    ensure_eq!(body.to_vec(), *rest, "rest");
                    let mut re = h.write_to_vec();
                    re.extend_from_slice(body);
                    ensure_eq!(re, c.0, "re-encoded frame");
                }
                (w, g) => return Err(format!("reference decode {w:?}, code {:?}", g.map(|g| g.0))),
            }
            Ok(Outcome::new(c.0.len() >= 3).label(want.is_some(), "accepted").label(want.is_none(), "rejected"))
        },
    );
    // Every discriminant byte at every length 0..=16, exhaustively
    run.exhaust(
        "discriminants",
        "all 256 first bytes x all lengths 1..=16; non-trivial = all",
        (0u16..256).flat_map(|d| (1usize..=16).map(move |n| (d as u8, n))),
        |&(d, n)| {
            let mut b = vec![d];
            b.extend((1..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(d)));
            let want = ref_decode(&b);
            let got = VarHeader::take_from_slice(&b);
            ensure_eq!(
                got.map(|(h, r)| (key_bytes(&h.key), seq_parts(&h.seq_no), r.to_vec())),
                want,
                "decode of {b:02x?}"
            );
            Ok(Outcome::new(true))
        },
    );
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct AlgCase {
    a: [u8; 8],
    b: [u8; 8],
    la: usize,
    lb: usize,
    path: Vec<usize>,
    s1: (usize, u32),
    s2: (usize, u32),
    to: usize,
}

/// Two keys that often collide at some shorter length but not at longer ones
fn related_keys() -> impl Strategy<Value = ([u8; 8], [u8; 8])> {
    prop_oneof![
        1 => (kb8(), kb8()),
        1 => kb8().prop_map(|a| (a, a)),
        // differ in ways that cancel at width 4, 2 or 1
        4 => (kb8(), prop::collection::vec((0usize..8, 0usize..8, any::<u8>()), 1..4), 0usize..3).prop_map(|(a, ms, w)| {
            let mut b = a;
            for (i, j, d) in ms {
                // confine j to i's group so that the folds of group size 2/4/8 agree
                let g = [2usize, 4, 8][w];
                let j = (i / g) * g + j % g;
                if i != j { b[i] ^= d; b[j] ^= d; }
            }
            (a, b)
        }),
        1 => (kb8(), 0usize..8, 0u8..8).prop_map(|(a, i, bit)| { let mut b = a; b[i] ^= 1 << bit; (a, b) }),
    ]
}

pub fn c02(run: &mut Run) {
    run.assume("Reference folding is the documented XOR table; equality of sequence numbers is numeric across widths, as the repository's tests assert.");
    run.check(
        "algebra",
        "pairs of related 8-byte keys at two lengths, a random shrink path, two sequence numbers; compared with the documented folds; non-trivial = lengths differ and the two keys collide at one length but differ at another",
        500_000,
        20_000_000,
        || (related_keys(), klen(), klen(), prop::collection::vec(klen(), 0..4), (slen(), spicy_u32()), (slen(), spicy_u32()), slen())
            .prop_flat_map(|((a, b), la, lb, path, s1, s2, to)| {
                // half the time make s2 numerically related to s1
                prop_oneof![
                    Just(s2),
                    Just((s2.0, s1.1)),
                    Just((s2.0, s1.1 & 0xff)),
                    Just((s2.0, s1.1 & 0xffff)),
                ].prop_map(move |s2| AlgCase { a, b, la, lb, path: path.clone(), s1, s2, to })
            }),
        |c: &AlgCase| {
            let (ka, kb) = (key8(c.a), key8(c.b));
            // direct conversions
            for (arr, k) in [(&c.a, ka), (&c.b, kb)] {
                ensure_eq!(vec![Key1::from_key8(k).to_bytes()], fold(arr, 1), "Key1::from_key8");
                ensure_eq!(Key2::from_key8(k).to_bytes().to_vec(), fold(arr, 2), "Key2::from_key8");
                ensure_eq!(Key4::from_key8(k).to_bytes().to_vec(), fold(arr, 4), "Key4::from_key8");
                let k4 = Key4::from_key8(k);
                let k2 = Key2::from_key8(k);
                ensure_eq!(Key2::from_key4(k4).to_bytes().to_vec(), fold(arr, 2), "Key2::from_key4");
                ensure_eq!(vec![Key1::from_key4(k4).to_bytes()], fold(arr, 1), "Key1::from_key4");
                ensure_eq!(vec![Key1::from_key2(k2).to_bytes()], fold(arr, 1), "Key1::from_key2");
                ensure_eq!(Key1::from(k).to_bytes(), fold(arr, 1)[0], "From<Key> for Key1");
                ensure_eq!(Key2::from(k).to_bytes().to_vec(), fold(arr, 2), "From<Key> for Key2");
                ensure_eq!(Key4::from(k).to_bytes().to_vec(), fold(arr, 4), "From<Key> for Key4");
                ensure_eq!(Key1::from(k4).to_bytes(), fold(arr, 1)[0], "From<Key4> for Key1");
                ensure_eq!(Key1::from(k2).to_bytes(), fold(arr, 1)[0], "From<Key2> for Key1");
                ensure_eq!(Key2::from(k4).to_bytes().to_vec(), fold(arr, 2), "From<Key4> for Key2");
            }
            // shrink to la / lb, equality in both directions
            let mut va = VarKey::Key8(ka);
            let mut vb = VarKey::Key8(kb);
            va.shrink_to(kkind(c.la));
            vb.shrink_to(kkind(c.lb));
            ensure_eq!(key_bytes(&va), fold(&c.a, c.la), "shrink a");
            ensure_eq!(key_bytes(&vb), fold(&c.b, c.lb), "shrink b");
            ensure_eq!(va.kind(), kkind(c.la), "kind a");
            let m = c.la.min(c.lb);
            let want_eq = fold(&c.a, m) == fold(&c.b, m);
            ensure_eq!(va == vb, want_eq, "equality of {va:?} and {vb:?}");
            ensure_eq!(vb == va, want_eq, "symmetric equality of {va:?} and {vb:?}");
            // shrink path never grows, and any path gives the same as the direct fold
            let mut v = VarKey::Key8(ka);
            let mut cur = 8;
            for p in &c.path {
                v.shrink_to(kkind(*p));
                cur = cur.min(*p);
                ensure_eq!(key_bytes(&v), fold(&c.a, cur), "shrink path {:?}", c.path);
            }
            // conversions out of a VarKey
            ensure_eq!(Key1::try_from(&va).map(|k| vec![k.to_bytes()]), Ok(fold(&c.a, 1)), "Key1 try_from");
            ensure_eq!(
                Key2::try_from(&va).map(|k| k.to_bytes().to_vec()),
                if c.la >= 2 { Ok(fold_more(fold(&c.a, c.la), 2)) } else { Err(TooSmall) }, "Key2 try_from {va:?}"
            );
            ensure_eq!(
                Key4::try_from(&va).map(|k| k.to_bytes().to_vec()),
                if c.la >= 4 { Ok(fold_more(fold(&c.a, c.la), 4)) } else { Err(TooSmall) }, "Key4 try_from {va:?}"
            );
            ensure_eq!(
                Key::try_from(&va).map(|k| k.to_bytes().to_vec()),
                if c.la == 8 { Ok(c.a.to_vec()) } else { Err(TooSmall) }, "Key try_from {va:?}"
            );
            ensure_eq!(Key1::try_from_varkey(&va).is_some(), true, "Key1 try_from_varkey");
            ensure_eq!(Key2::try_from_varkey(&va).map(|k| k.to_bytes().to_vec()), Key2::try_from(&va).ok().map(|k| k.to_bytes().to_vec()), "Key2 try_from_varkey");
            ensure_eq!(Key4::try_from_varkey(&va).map(|k| k.to_bytes().to_vec()), Key4::try_from(&va).ok().map(|k| k.to_bytes().to_vec()), "Key4 try_from_varkey");

            // sequence numbers
            let mask = |l: usize, v: u32| match l { 1 => v & 0xff, 2 => v & 0xffff, _ => v };
            let (x, y) = (mask(c.s1.0, c.s1.1), mask(c.s2.0, c.s2.1));
            let (sx, sy) = (varseq(c.s1.0, x), varseq(c.s2.0, y));
            ensure_eq!(sx == sy, x == y, "VarSeq equality {sx:?} {sy:?}");
            let mut r = sx;
            r.resize(skind(c.to));
            ensure_eq!(seq_parts(&r), (c.to, mask(c.to, x)), "resize {sx:?} to {}", c.to);
            ensure_eq!(Into::<u8>::into(sx), x as u8, "into u8");
            ensure_eq!(Into::<u16>::into(sx), x as u16, "into u16");
            ensure_eq!(Into::<u32>::into(sx), x, "into u32");
            ensure_eq!(seq_parts(&VarSeq::from(x as u8)), (1, x & 0xff), "from u8");
            ensure_eq!(seq_parts(&VarSeq::from(x as u16)), (2, x & 0xffff), "from u16");
            ensure_eq!(seq_parts(&VarSeq::from(x)), (4, x), "from u32");

            // headers compare by key equivalence and number
            let (ha, hb) = (VarHeader { key: va, seq_no: sx }, VarHeader { key: vb, seq_no: sy });
            ensure_eq!(ha == hb, want_eq && x == y, "header equality");

            let collide = [1, 2, 4].iter().any(|l| fold(&c.a, *l) == fold(&c.b, *l)) && c.a != c.b;
            Ok(Outcome::new(collide && c.la != c.lb)
                .label(want_eq && c.a != c.b, "equal-by-folding")
                .label(!want_eq && collide, "collide-shorter-only")
                .label(x == y && c.s1.0 != c.s2.0, "seq-eq-across-width"))
        },
    );
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct MinCase {
    lists: Vec<Vec<[u8; 8]>>,
}

/// `n` keys, some of them derived from others, cut into lists
fn min_case(n: std::ops::Range<usize>, cut: std::ops::Range<usize>, ncuts: std::ops::Range<usize>, fresh: u8, dup: u8) -> impl Strategy<Value = MinCase> {
    (
        prop::collection::vec((kb8(), 0u8..fresh + 5, any::<prop::sample::Index>(), 0usize..8, 0usize..8, 1u8..=255), n),
        prop::collection::vec(cut, ncuts),
    )
        .prop_map(move |(specs, cuts)| {
            let mut keys: Vec<[u8; 8]> = vec![];
            for (k, how, from, i, j, d) in specs {
                let k = if keys.is_empty() || how < fresh { k } else {
                    let mut b = keys[from.index(keys.len())];
                    let g = [2usize, 4, 8, 8, 1][(how - fresh) as usize];
                    if g == 1 {
                        // exact duplicate, rarely
                        if d < dup { b } else { k }
                    } else {
                        let mut j = (i / g) * g + j % g;
                        if i == j { j = (i / g) * g + (i + 1) % g; }
                        b[i] ^= d; b[j] ^= d;
                        b
                    }
                };
                keys.push(k);
            }
            let mut lists = vec![];
            let mut rest = keys.as_slice();
            for c in cuts {
                let n = c.min(rest.len());
                lists.push(rest[..n].to_vec());
                rest = &rest[n..];
            }
            lists.push(rest.to_vec());
            MinCase { lists }
        })
}

/// Many different keys of which exactly one pair meets, at a chosen width (0 = nowhere below 8 bytes, 8 = equal)
fn min_pair() -> impl Strategy<Value = MinCase> {
    (any::<u64>(), 100usize..900, any::<(prop::sample::Index, prop::sample::Index)>(), prop_oneof![Just(0usize), Just(2), Just(4), Just(8)],
        prop::collection::vec(0usize..400, 0..5), (0usize..8, 1usize..8, 1u8..=255))
        .prop_map(|(seed, n, (a, b), w, cuts, (i, j, d))| {
            // keys with different 2-byte folds as long as these last
            let mut x = seed | 1;
            let mut seen = std::collections::HashSet::new();
            let mut keys: Vec<[u8; 8]> = vec![];
            while keys.len() < n {
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                let k = x.to_le_bytes();
                if seen.insert(fold(&k, 2)) {
                    keys.push(k);
                }
            }
            let (a, b) = (a.index(n), b.index(n));
            if a != b && w > 0 {
                keys[b] = keys[a];
                // a change that disappears at `w` bytes and below, but not above
                let g = match w { 2 => 4, 4 => 2, _ => 0 };
                if g > 0 {
                    let s = (i / g) * g;
                    let (p, q) = (i, s + (i - s + if g == 2 { 1 } else { 2 }) % g);
                    let _ = j;
                    keys[b][p] ^= d;
                    keys[b][q] ^= d;
                }
            }
            let mut lists = vec![];
            let mut rest = keys.as_slice();
            for c in cuts {
                let n = c.min(rest.len());
                lists.push(rest[..n].to_vec());
                rest = &rest[n..];
            }
            lists.push(rest.to_vec());
            MinCase { lists }
        })
}

pub fn c03(run: &mut Run) {
    run.assume("min_key_needed is called at run time; it is a const fn without const-dependent behaviour.");
    run.check(
        "min-key",
        "lists of key lists in which some keys are derived from others so that they collide at 1/2/4 bytes (or fully); oracle = smallest width at which all folded keys are distinct, panic iff two full keys are equal; non-trivial = answer above 1 byte or a duplicate, over at least 2 keys",
        400_000,
        10_000_000,
        || min_case(0..14, 0..6, 0..5, 5, 40),
        check_min,
    );
    run.check(
        "min-key-large",
        "hundreds of keys in several lists, most of them different at every width, of which one pair meets at 2, 4 or 8 bytes (or none), and smaller lists with many relations; non-trivial = answer above 1 byte or a duplicate",
        12_000,
        400_000,
        || prop_oneof![2 => min_pair(), 1 => min_case(60..300, 0..120, 0..6, 60, 20)],
        check_min,
    );
}

fn check_min(c: &MinCase) -> vcommon::CaseResult {
    let lists: Vec<Vec<Key>> = c.lists.iter().map(|l| l.iter().map(|k| key8(*k)).collect()).collect();
    let refs: Vec<&[Key]> = lists.iter().map(|l| l.as_slice()).collect();
    let flat: Vec<[u8; 8]> = c.lists.concat();
    let want = [1usize, 2, 4, 8].into_iter().find(|l| {
        let mut v: Vec<_> = flat.iter().map(|k| fold(k, *l)).collect();
        v.sort();
        v.windows(2).all(|w| w[0] != w[1])
    });
    let got = std::panic::catch_unwind(|| min_key_needed(&refs)).ok();
    ensure_eq!(got, want, "min_key_needed({:02x?}) (None = duplicate rejected)", c.lists);
    Ok(Outcome::new(flat.len() >= 2 && want != Some(1))
        .label(want == Some(2), "needs-2")
        .label(want == Some(4), "needs-4")
        .label(want == Some(8), "needs-8")
        .label(want.is_none(), "duplicate"))
}

/// Bytes that are not meant as a frame for anybody: short, header-like and long ones
pub fn junk() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        3 => prop::collection::vec(spicy_byte(), 0..14),
        1 => prop::collection::vec(any::<u8>(), 14..120),
        1 => (spicy_byte(), prop::collection::vec(any::<u8>(), 8..60)).prop_map(|(b, mut v)| {
            v[0] = b;
            v
        }),
    ]
}
