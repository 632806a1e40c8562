//! What the proofs assume of dependencies (proof/specs/vx.rs), tried on the real ones.
//! Each function here restates one contract and compares; all of it is bounded.
use crate::util::{fnv, PBuf, Mem, Rng};
use crate::{bad, Cov, Res};
use bitvec::prelude::{BitOrder, BitStore, BitVec, Lsb0, Msb0};
use external_memory_tools::{AddressableBuffer, BufferError};
use num_bigint::{BigInt, BigUint, Sign};
use parity_scale_codec::{Compact, Decode, DecodeAll, Encode, Input, Output};
use primitive_types::{H160, H256, H512};
use scale_info::{form::PortableForm, Path, PortableRegistry, PortableType, Type, TypeDef, TypeDefPrimitive};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};

/// `le` of vx.rs
fn le(b: &[u8]) -> BigUint {
    let mut v = BigUint::from(0u8);
    for x in b.iter().rev() {
        v = v * 256u32 + *x
    }
    v
}
fn small(b: &[u8]) -> u128 {
    b.iter().rev().fold(0u128, |a, x| a << 8 | *x as u128)
}
/// `compact_raw` of vx.rs
fn compact_raw(b: &[u8]) -> Option<(BigUint, usize)> {
    let first = *b.first()?;
    let (v, l, min) = match first % 4 {
        0 => return Some((BigUint::from(first / 4), 1)),
        1 => (le(b.get(..2)?) / 4u8, 2, BigUint::from(64u8)),
        2 => (le(b.get(..4)?) / 4u8, 4, BigUint::from(0x4000u32)),
        _ => {
            let n = first as usize / 4 + 4;
            let min = BigUint::from(256u32).pow(n as u32 - 1).max(BigUint::from(0x4000_0000u32));
            (le(b.get(1..n + 1)?), n + 1, min)
        }
    };
    if v >= min {
        Some((v, l))
    } else {
        None
    }
}
fn data(r: &mut Rng) -> Vec<u8> {
    let n = r.below(24);
    let mut b = r.bytes(n);
    match r.below(4) {
        0 => {
            let mut c = crate::refdec::enc_compact(r.num());
            c.extend_from_slice(&b);
            b = c
        }
        1 => {
            let k = r.below(17);
            let mut c = vec![(k as u8) << 2 | 3];
            c.extend(r.bytes(k + 4));
            c.extend_from_slice(&b);
            b = c
        }
        2 => {
            let v = r.num();
            let mut c = v.to_le_bytes().to_vec();
            c.truncate(r.below(17));
            c.extend_from_slice(&b);
            b = c
        }
        _ => {}
    }
    b
}
macro_rules! ensure { ($c: expr, $($t: tt)*) => { if !$c { return bad(format!($($t)*), vec![]) } } }

fn compact_one<T>(b: &[u8], max: u128, name: &str, of: impl Fn(u128) -> T) -> Res
where
    Compact<T>: Decode,
    T: PartialEq + std::fmt::Debug,
{
    let want = compact_raw(b).and_then(|(n, _)| if n <= BigUint::from(max) { u128::try_from(n).ok() } else { None });
    let got = <Compact<T>>::decode(&mut &b[..]);
    ensure!(got.is_ok() == want.is_some(), "compact {name} of {}: {:?}, assumed {:?}", hex::encode(b), got.map(|x| x.0).ok(), want);
    if let (Ok(g), Some(w)) = (got, want) {
        ensure!(g.0 == of(w), "compact {name} of {}: {:?}, assumed {:?}", hex::encode(b), g.0, w)
    }
    Ok(())
}
fn compacts(r: &mut Rng) -> Res {
    let b = data(r);
    compact_one::<u8>(&b, u8::MAX as u128, "u8", |n| n as u8)?;
    compact_one::<u16>(&b, u16::MAX as u128, "u16", |n| n as u16)?;
    compact_one::<u32>(&b, u32::MAX as u128, "u32", |n| n as u32)?;
    compact_one::<u64>(&b, u64::MAX as u128, "u64", |n| n as u64)?;
    compact_one::<u128>(&b, u128::MAX, "u128", |n| n)?;
    compact_one::<PerU16>(&b, u16::MAX as u128, "PerU16", |n| PerU16::from_parts(n.min(65535) as u16))?;
    compact_one::<Percent>(&b, u8::MAX as u128, "Percent", |n| Percent::from_parts(n.min(100) as u8))?;
    compact_one::<Permill>(&b, u32::MAX as u128, "Permill", |n| Permill::from_parts(n.min(1_000_000) as u32))?;
    compact_one::<Perbill>(&b, u32::MAX as u128, "Perbill", |n| Perbill::from_parts(n.min(1_000_000_000) as u32))?;
    compact_one::<Perquintill>(&b, u64::MAX as u128, "Perquintill", |n| Perquintill::from_parts(n.min(1_000_000_000_000_000_000) as u64))
}

fn parse_one<T: Decode + DecodeAll + PartialEq + std::fmt::Debug>(b: &[u8], name: &str, want: Option<(T, usize)>) -> Res {
    let mut rest = b;
    let got = T::decode(&mut rest);
    ensure!(got.is_ok() == want.is_some(), "{name} of {}: {:?}, assumed {:?}", hex::encode(b), got.ok(), want);
    let all = T::decode_all(&mut &b[..]);
    ensure!(all.is_ok() == matches!(&want, Some((_, n)) if *n == b.len()), "decode_all {name} of {}", hex::encode(b));
    if let (Ok(g), Some((w, n))) = (got, want) {
        ensure!(g == w && rest == &b[n..], "{name} of {}: {g:?} and {} left, assumed {w:?}", hex::encode(b), rest.len());
        if let Ok(a) = all {
            ensure!(a == g, "decode_all {name} of {}", hex::encode(b))
        }
    }
    Ok(())
}
fn signed(b: &[u8], n: usize) -> i128 {
    let v = small(&b[..n]);
    if n == 16 {
        return v as i128;
    }
    if v < 1 << (8 * n - 1) {
        v as i128
    } else {
        v as i128 - (1i128 << (8 * n))
    }
}
fn plain(r: &mut Rng) -> Res {
    let b = data(r);
    macro_rules! uint { ($($t: ty, $n: expr), *) => { $( parse_one::<$t>(&b, stringify!($t), if b.len() >= $n { Some((small(&b[..$n]) as $t, $n)) } else { None })?; )* } }
    uint!(u8, 1, u16, 2, u32, 4, u64, 8, u128, 16);
    macro_rules! int { ($($t: ty, $n: expr), *) => { $( parse_one::<$t>(&b, stringify!($t), if b.len() >= $n { Some((signed(&b, $n) as $t, $n)) } else { None })?; )* } }
    int!(i8, 1, i16, 2, i32, 4, i64, 8, i128, 16);
    parse_one::<bool>(&b, "bool", match b.first() { Some(x) if *x <= 1 => Some((*x == 1, 1)), _ => None })?;
    macro_rules! per { ($($t: ty, $n: expr, $max: expr, $i: ty), *) => { $(
        parse_one::<$t>(&b, stringify!($t), if b.len() >= $n && small(&b[..$n]) <= $max { Some((<$t>::from_parts(small(&b[..$n]) as $i), $n)) } else { None })?;
    )* } }
    per!(PerU16, 2, 65535, u16, Percent, 1, 100, u8, Permill, 4, 1_000_000, u32, Perbill, 4, 1_000_000_000, u32,
        Perquintill, 8, 1_000_000_000_000_000_000, u64);
    let mut rest = &b[..];
    match Input::read_byte(&mut rest) {
        Ok(x) => ensure!(!b.is_empty() && x == b[0] && rest == &b[1..], "read_byte of a source: {x}"),
        Err(_) => ensure!(b.is_empty(), "read_byte of a source fails within it"),
    }
    let mut v = b.clone();
    v.push_byte(7);
    ensure!(v.len() == b.len() + 1 && v[..b.len()] == b && v[b.len()] == 7, "push_byte");
    let n = r.next() as u16;
    let mut v = b.clone();
    n.encode_to(&mut v);
    ensure!(v[..b.len()] == b && v[b.len()..] == [(n % 256) as u8, (n / 256) as u8], "encode_to of {n}");
    Ok(())
}

/// bit i of elements of w bytes, in the order given
fn bit_at(b: &[u8], w: usize, msb: bool, i: usize) -> bool {
    let j = i % (8 * w);
    let k = if msb { 8 * w - 1 - j } else { j };
    b[i / (8 * w) * w + k / 8] >> (k % 8) & 1 == 1
}
fn bits_one<T: BitStore + Decode, O: BitOrder>(b: &[u8], w: usize, msb: bool) -> Res
where
    BitVec<T, O>: Decode + DecodeAll,
{
    let want = compact_raw(b).and_then(|(n, l)| {
        let n = u32::try_from(n).ok()? as usize;
        let end = l + n.div_ceil(8 * w) * w;
        if end == b.len() { Some((0..n).map(|i| bit_at(&b[l..], w, msb, i)).collect::<Vec<_>>()) } else { None }
    });
    let got = <BitVec<T, O>>::decode_all(&mut &b[..]).ok().map(|v| v.iter().map(|x| *x).collect::<Vec<_>>());
    ensure!(got == want, "bits of {} in elements of {w}, first high {msb}: {got:?}, assumed {want:?}", hex::encode(b));
    Ok(())
}
fn words_one<O: BitOrder>(r: &mut Rng, msb: bool) -> Res {
    let v: Vec<u32> = (0..r.below(5)).map(|_| r.num() as u32).collect();
    let want: Vec<bool> = (0..32 * v.len()).map(|i| v[i / 32] >> (if msb { 31 - i % 32 } else { i % 32 }) & 1 == 1).collect();
    let Ok(mut b) = BitVec::<u32, O>::try_from_vec(v) else { return crate::bad("try_from_vec refuses", vec![]) };
    ensure!(b.iter().map(|x| *x).collect::<Vec<_>>() == want, "try_from_vec, first high {msb}");
    ensure!(b == want.iter().collect::<BitVec<u32, O>>(), "equality of bit vectors by content");
    let at = r.below(want.len() + 1);
    b.split_off(at);
    ensure!(b.iter().map(|x| *x).collect::<Vec<_>>() == want[..at], "split_off at {at}");
    Ok(())
}
fn bit_vectors(r: &mut Rng) -> Res {
    let n = r.below(140);
    let w = *r.pick(&[1usize, 2, 4, 8]);
    let mut b = crate::refdec::enc_compact(n as u128);
    let len = (n.div_ceil(8 * w) * w + r.below(8) / 6).saturating_sub(r.below(8) / 6);
    b.extend(r.bytes(len));
    bits_one::<u8, Lsb0>(&b, 1, false)?;
    bits_one::<u8, Msb0>(&b, 1, true)?;
    bits_one::<u16, Lsb0>(&b, 2, false)?;
    bits_one::<u16, Msb0>(&b, 2, true)?;
    bits_one::<u32, Lsb0>(&b, 4, false)?;
    bits_one::<u32, Msb0>(&b, 4, true)?;
    bits_one::<u64, Lsb0>(&b, 8, false)?;
    bits_one::<u64, Msb0>(&b, 8, true)?;
    words_one::<Lsb0>(r, false)?;
    words_one::<Msb0>(r, true)
}

fn numbers(r: &mut Rng) -> Res {
    let n = r.below(40);
    let b = r.bytes(n);
    ensure!(BigUint::from_bytes_le(&b) == le(&b), "BigUint of {}", hex::encode(&b));
    let neg = b.last().map(|x| *x >= 128).unwrap_or(false);
    let want = if neg { BigInt::from_biguint(Sign::Plus, le(&b)) - BigInt::from_biguint(Sign::Plus, BigUint::from(256u32).pow(n as u32)) } else { BigInt::from_biguint(Sign::Plus, le(&b)) };
    ensure!(BigInt::from_signed_bytes_le(&b) == want, "BigInt of {}", hex::encode(&b));
    let x = r.num();
    let four = (x as u32).to_le_bytes();
    let eight = (x as u64).to_le_bytes();
    ensure!(small(&four) == x as u32 as u128 && small(&eight) == x as u64 as u128, "little-endian of {x}");
    ensure!(u32::from_le_bytes(four) as u128 == small(&four) && u64::from_le_bytes(eight) as u128 == small(&eight), "from_le_bytes of {x}");
    let mut rev = four;
    rev.reverse();
    ensure!(u32::from_be_bytes(four) as u128 == small(&rev), "from_be_bytes of {x}");
    let mut rev = (x as u64).to_be_bytes();
    rev.reverse();
    ensure!(small(&rev) == x as u64 as u128, "to_be_bytes of {x}");
    let c = if r.chance(1, 2) { r.below(0x120000) as u32 } else { x as u32 };
    let scalar = c < 0xd800 || (0xe000..=0x10ffff).contains(&c);
    ensure!(char::from_u32(c).map(|y| y as u32) == if scalar { Some(c) } else { None }, "character {c}");
    let a = x as u64;
    if a != 0 {
        let t = a.trailing_zeros();
        ensure!(t < 64 && a >> t & 1 == 1 && (0..t).all(|j| a >> j & 1 == 0), "trailing_zeros of {a}")
    }
    let y = r.num() as u64;
    ensure!(a.max(y) == if a >= y { a } else { y }, "max of {a} {y}");
    let (lo, hi) = ((a as u32).min(y as u32), (a as u32).max(y as u32));
    let z = r.num() as u32;
    ensure!(z.clamp(lo, hi) == if z < lo { lo } else if z > hi { hi } else { z }, "clamp of {z}");
    // decimal digits
    let s = x.to_string();
    let back = s.bytes().fold((true, BigUint::from(0u8)), |(ok, v), d| (ok && d.is_ascii_digit(), v * 10u32 + d.wrapping_sub(b'0')));
    ensure!(back.0 && back.1 == BigUint::from(x) && (s.len() == 1 || !s.starts_with('0')), "digits of {x}: {s}");
    ensure!((x as u8).to_string() == (x as u8 as u128).to_string() && (x as u64).to_string() == (x as u64 as u128).to_string()
        && (x as u16).to_string() == (x as u16 as u128).to_string() && (x as u32).to_string() == (x as u32 as u128).to_string()
        && (x as usize).to_string() == (x as usize as u128).to_string(), "digits of {x} in narrower types");
    ensure!(<[u8; 8]>::try_from(&b[..]).ok().map(|q| q.to_vec()) == if b.len() == 8 { Some(b.clone()) } else { None }, "try_into of {} bytes", b.len());
    ensure!(<[u8; 32]>::try_from(&b[..]).ok().map(|q| q.to_vec()) == if b.len() == 32 { Some(b.clone()) } else { None }, "try_into of {} bytes", b.len());
    let hx: String = b.iter().flat_map(|q| [q / 16, q % 16]).map(|d| (if d < 10 { b'0' + d } else { b'a' + d - 10 }) as char).collect();
    ensure!(hex::encode(&b) == hx, "hex of {b:?}");
    use substrate_crypto_light::{common::HASH_256_LEN, ecdsa, ed25519, sr25519};
    ensure!(HASH_256_LEN == 32 && ecdsa::PUBLIC_LEN == 33 && ed25519::PUBLIC_LEN == 32 && sr25519::PUBLIC_LEN == 32
        && ecdsa::SIGNATURE_LEN == 65 && ed25519::SIGNATURE_LEN == 64 && sr25519::SIGNATURE_LEN == 64
        && H160::len_bytes() == 20 && H256::len_bytes() == 32 && H512::len_bytes() == 64, "lengths of keys, signatures and hashes");
    Ok(())
}

/// characters of well-formed UTF-8, by the definition
fn utf8(b: &[u8]) -> Option<Vec<u32>> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let f = b[i] as u32;
        let (n, min, top) = match f {
            0..=0x7f => (1, 0, f),
            0xc0..=0xdf => (2, 0x80, f & 0x1f),
            0xe0..=0xef => (3, 0x800, f & 0xf),
            0xf0..=0xf7 => (4, 0x10000, f & 7),
            _ => return None,
        };
        let mut v = top;
        for x in b.get(i + 1..i + n)? {
            if x & 0xc0 != 0x80 {
                return None;
            }
            v = v << 6 | (*x as u32 & 0x3f)
        }
        if v < min || v > 0x10ffff || (0xd800..0xe000).contains(&v) {
            return None;
        }
        out.push(v);
        i += n
    }
    Some(out)
}
fn text(r: &mut Rng) -> String {
    (0..r.below(7)).map(|_| *r.pick(&['a', 'Z', '0', '_', '\n', 'é', '€', '𝄞', ' '])).collect()
}
fn texts(r: &mut Rng) -> Res {
    let mut b = if r.chance(1, 2) { text(r).into_bytes() } else { let n = r.below(8); r.bytes(n) };
    if r.chance(1, 2) && !b.is_empty() {
        let i = r.below(b.len());
        b[i] = *r.pick(&[0x80, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xf8, 0x7f, 0xa0])
    }
    let got = String::from_utf8(b.clone()).ok().map(|s| s.chars().map(|c| c as u32).collect::<Vec<_>>());
    ensure!(got == utf8(&b), "text of {}", hex::encode(&b));
    let (s, t) = (text(r), text(r));
    let (cs, ct) = (s.chars().collect::<Vec<_>>(), t.chars().collect::<Vec<_>>());
    ensure!((s == t) == (cs == ct) && (s.as_str() == t.as_str()) == (cs == ct) && (s == *t.as_str()) == (cs == ct), "{s:?} == {t:?}");
    ensure!(s.is_empty() == cs.is_empty(), "is_empty of {s:?}");
    ensure!(s.clone() == s && s.to_string().chars().collect::<Vec<_>>() == cs, "copy of {s:?}");
    let mut c = s.clone();
    c.push_str(&t);
    ensure!(c.chars().collect::<Vec<_>>() == [cs.clone(), ct.clone()].concat() && format!("{s}{t}") == c, "{s:?} before {t:?}");
    let lines: Vec<String> = (0..r.below(4)).map(|_| text(r)).collect();
    let mut want = vec![];
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            want.extend(ct.iter())
        }
        want.extend(l.chars())
    }
    ensure!(lines.join(&t).chars().collect::<Vec<_>>() == want, "{lines:?} joined by {t:?}");
    let a: String = s.chars().filter(|c| (*c as u32) < 128).collect();
    let ca: Vec<char> = a.chars().collect();
    let n = r.below(ca.len() + 1);
    ensure!(a.len() == ca.len() && a[..n].chars().eq(ca[..n].iter().copied()) && a[n..].chars().eq(ca[n..].iter().copied()), "parts of {a:?}");
    if let Some(x) = ca.first() {
        ensure!(x.to_string().repeat(n).chars().collect::<Vec<_>>() == vec![*x; n], "repeat of {x:?}")
    }
    // lists
    let mut v: Vec<String> = lines.clone();
    v.extend_from_slice(&[s.clone(), t.clone()]);
    ensure!(v[..lines.len()] == lines && v[lines.len()..] == [s.clone(), t.clone()], "extend");
    ensure!(lines.contains(&s) == lines.iter().any(|l| l.chars().eq(s.chars())), "contains");
    ensure!(lines.to_vec().len() == lines.len() && lines.to_vec().iter().zip(&lines).all(|(a, b)| a == b), "to_vec");
    let (h, g) = (H256::from_slice(&[r.below(2) as u8; 32]), H256::from_slice(&[r.below(2) as u8; 32]));
    ensure!((h == g) == (h.0 == g.0), "equality of hashes");
    Ok(())
}
fn registry(r: &mut Rng) -> Res {
    let segments: Vec<String> = (0..r.below(5)).map(|_| (*r.pick(&["a", "b", "sp_core", "crypto"])).to_string()).collect();
    let p: Path<PortableForm> = Path::from_segments_unchecked(segments.iter().cloned());
    ensure!(p.segments == segments, "segments of a path");
    ensure!(p.ident() == segments.last().cloned() && p.is_empty() == segments.is_empty(), "ident of {segments:?}");
    ensure!(p.namespace() == &segments[..segments.len().saturating_sub(1)], "namespace of {segments:?}");
    let all = [TypeDefPrimitive::U8, TypeDefPrimitive::U16, TypeDefPrimitive::Str, TypeDefPrimitive::Bool];
    let types: Vec<PortableType> = (0..r.below(5)).map(|i| PortableType {
        id: i as u32,
        ty: Type { path: p.clone(), type_params: vec![], type_def: TypeDef::Primitive(all[r.below(4)].clone()), docs: vec![text(r)] },
    }).collect();
    let reg = PortableRegistry { types: types.clone() };
    let id = if r.chance(1, 9) { u32::MAX } else { r.below(6) as u32 };
    ensure!(reg.resolve(id) == types.get(id as usize).map(|x| &x.ty), "resolve {id}");
    if let Some(t) = types.first() {
        ensure!(t.ty.clone() == t.ty && t.ty.docs == t.ty.docs.clone(), "copy of a type")
    }
    ensure!(crate::util::sym(id).id == id, "id of a symbol");
    Ok(())
}
fn buffers(r: &mut Rng) -> Res {
    let n = r.below(20);
    let b = r.bytes(n);
    let far = [isize::MAX as usize, isize::MAX as usize - 1, 1 << 40];
    // on one of the two sides of the end, near it, or far from it
    let pos = match r.below(5) { 0 => usize::MAX - r.below(3), 1 => *r.pick(&far), _ => r.below(n + 3) };
    let len = match r.below(5) { 0 => *r.pick(&far), _ => r.below(n + 3) };
    let within = pos.checked_add(len).map(|e| e <= n).unwrap_or(false);
    let s = &b[..];
    type A = ();
    ensure!(AddressableBuffer::<A>::total_len(&s) == n, "total_len");
    match AddressableBuffer::<A>::read_slice(&s, &mut (), pos, len) {
        Ok(x) => ensure!(within && x == &b[pos..pos + len], "read_slice {pos} {len} of {n}"),
        Err(_) => ensure!(!within, "read_slice {pos} {len} of {n} fails"),
    }
    match AddressableBuffer::<A>::read_byte(&s, &mut (), pos) {
        Ok(x) => ensure!(pos < n && x == b[pos], "read_byte {pos} of {n}"),
        Err(_) => ensure!(pos >= n, "read_byte {pos} of {n} fails"),
    }
    match AddressableBuffer::<A>::limit_length(&s, len) {
        Ok(x) => ensure!(len <= n && x == &b[..len], "limit_length {len} of {n}"),
        Err(_) => ensure!(len > n, "limit_length {len} of {n} fails"),
    }
    // the memory that stands for the user's in the other searches
    let page = r.range(1, 7);
    let mut m = Mem::with(&b, page);
    m.fail_at = if r.chance(1, 2) { Some(0) } else { None };
    let p = PBuf { len: n };
    match p.read_slice(&mut m, pos, len) {
        Ok(x) => ensure!(within && !m.faulted && x == b[pos..pos + len], "paged read_slice {pos} {len} of {n}"),
        Err(e) => ensure!(m.faulted == matches!(e, BufferError::External(_)) && (m.faulted || !within), "paged read_slice {pos} {len} of {n} fails"),
    }
    Ok(())
}

pub fn trust(r: &mut Rng, case: u64, cov: &mut Cov) -> Res {
    let (name, f): (&str, fn(&mut Rng) -> Res) = match case % 7 {
        0 => ("compact numbers and parts", compacts),
        1 => ("plain values, sources and sinks", plain),
        2 => ("bit vectors", bit_vectors),
        3 => ("numbers", numbers),
        4 => ("texts and lists", texts),
        5 => ("paths and registries", registry),
        _ => ("buffers", buffers),
    };
    cov.kind(name);
    let seen = r.clone().next();
    f(r)?;
    cov.nontrivial(fnv(&seen.to_le_bytes()), || name.to_string());
    Ok(())
}
