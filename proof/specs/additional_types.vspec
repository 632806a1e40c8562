== module additional_types
== prelude
use parity_scale_codec::{Decode, Encode, Error, Input, Output};
//VERUS
pub open spec fn p2(n: nat) -> nat
    decreases n
{ if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub open spec fn quantize(period: nat) -> nat { if period / 4096 >= 1 { period / 4096 } else { 1 } }
/// era at the start of b, and its length, as the chain reads it
pub open spec fn era_at(b: Seq<u8>) -> Option<(Era, nat)> {
    if b.len() == 0 { None }
    else if b[0] == 0 { Some((Era::Immortal, 1)) }
    else if b.len() == 1 { None }
    else {
        let code = b[0] as nat + 256 * b[1] as nat;
        let period = p2(1 + code % 16);
        let phase = (code / 16) * quantize(period);
        if period >= 4 && phase < period { Some((Era::Mortal(period as u64, phase as u64), 2)) } else { None }
    }
}
/// eras that can be decoded
pub open spec fn decodable(e: Era) -> bool { exists|b: Seq<u8>| #[trigger] era_at(b) matches Some((x, n)) && x == e }
/// bytes of a decodable era
pub open spec fn era_bytes(e: Era) -> Seq<u8> {
    let b = choose|b: Seq<u8>| #[trigger] era_at(b) matches Some((x, n)) && x == e;
    b.take(era_at(b).unwrap().1 as int)
}
pub proof fn lemma_p2()
    ensures p2(1) == 2, p2(2) == 4, p2(3) == 8, p2(4) == 16, p2(5) == 32, p2(6) == 64, p2(7) == 128, p2(8) == 256, p2(9) == 512,
        p2(10) == 1024, p2(11) == 2048, p2(12) == 4096, p2(13) == 8192, p2(14) == 16384, p2(15) == 32768, p2(16) == 65536
{ reveal_with_fuel(p2, 17); }
/// p is two to the n + 1
pub open spec fn power(p: u64, n: nat) -> bool {
    n == 0 && p == 2 || n == 1 && p == 4 || n == 2 && p == 8 || n == 3 && p == 16 || n == 4 && p == 32 || n == 5 && p == 64 || n == 6 && p == 128
    || n == 7 && p == 256 || n == 8 && p == 512 || n == 9 && p == 1024 || n == 10 && p == 2048 || n == 11 && p == 4096
    || n == 12 && p == 8192 || n == 13 && p == 16384 || n == 14 && p == 32768 || n == 15 && p == 65536
}
pub proof fn lemma_power(n: nat)
    requires n < 16
    ensures power(p2(1 + n) as u64, n), p2(1 + n) <= 65536
{ lemma_p2(); }
pub proof fn lemma_tz(p: u64, n: nat, r: u32)
    requires power(p, n), r < 64, (p >> (r as u64)) & 1 == 1
    ensures r == n + 1
{
    let k = r as u64;
    assert((p == 2 || p == 4 || p == 8 || p == 16 || p == 32 || p == 64 || p == 128 || p == 256 || p == 512 || p == 1024 || p == 2048
        || p == 4096 || p == 8192 || p == 16384 || p == 32768 || p == 65536) && k < 64 && (p >> k) & 1 == 1 ==>
        (p == 2 ==> k == 1) && (p == 4 ==> k == 2) && (p == 8 ==> k == 3) && (p == 16 ==> k == 4) && (p == 32 ==> k == 5)
        && (p == 64 ==> k == 6) && (p == 128 ==> k == 7) && (p == 256 ==> k == 8) && (p == 512 ==> k == 9) && (p == 1024 ==> k == 10)
        && (p == 2048 ==> k == 11) && (p == 4096 ==> k == 12) && (p == 8192 ==> k == 13) && (p == 16384 ==> k == 14)
        && (p == 32768 ==> k == 15) && (p == 65536 ==> k == 16)) by (bit_vector);
}
/// bytes of a mortal era: the code is (phase / quantize) * 16 + log2(period) - 1
pub proof fn lemma_code(b: Seq<u8>)
    requires era_at(b) is Some
    ensures
        era_at(b).unwrap().0 is Immortal ==> b.take(1) =~= seq![0u8] && era_at(b).unwrap().1 == 1,
        era_at(b).unwrap().0 matches Era::Mortal(period, phase) ==> {
            let code = b[0] as nat + 256 * b[1] as nat;
            &&& b.len() >= 2 && era_at(b).unwrap().1 == 2
            &&& 1 <= code % 16 < 16 && power(period, code % 16)
            &&& (phase as nat) / quantize(period as nat) == code / 16
            &&& code < 65536
            &&& b.take(2) =~= seq![(code % 256) as u8, (code / 256) as u8]
            &&& phase < period
        }
{
    if b[0] != 0 {
        let code = b[0] as nat + 256 * b[1] as nat;
        lemma_power(code % 16);
        let q = quantize(p2(1 + code % 16));
        lemma_p2();
        let c = code / 16;
        assert(c * q / q == c) by (nonlinear_arith) requires q >= 1;
    }
}
/// what is encoded for a decoded era are the bytes it was decoded from
pub proof fn lemma_era_bytes(b: Seq<u8>)
    requires era_at(b) is Some
    ensures era_bytes(era_at(b).unwrap().0) == b.take(era_at(b).unwrap().1 as int), decodable(era_at(b).unwrap().0)
{
    let e = era_at(b).unwrap().0;
    assert(era_at(b) matches Some((x, n)) && x == e);
    let c = choose|c: Seq<u8>| #[trigger] era_at(c) matches Some((x, n)) && x == e;
    assert(era_at(c) matches Some((x, n)) && x == e);
    lemma_code(b);
    lemma_code(c);
}
impl crate::vx::DecodeSpecImpl for Era {
    open spec fn parse(b: Seq<u8>) -> Option<(Self, nat)> { era_at(b) }
}
impl crate::vx::EncodeSpecImpl for Era {
    open spec fn encodable(&self) -> bool { decodable(*self) }
    open spec fn coded(&self) -> Seq<u8> { era_bytes(*self) }
}
== fn Era as Decode::decode
-- rewrite `(period >> 12).max(1)` => `vx_max64(period >> 12, 1)`
-- rewrite `"Invalid period and phase".into()` => `vx_codec_error("Invalid period and phase")`
-- before `let encoded`
            proof { assert(forall|b: u64| b < 256 ==> #[trigger] (b << 8i32) == b * 256) by (bit_vector); }
-- before `let period`
            proof {
                lemma_p2();
                assert(1u64 << 4i32 == 16) by (bit_vector);
                assert(encoded >> 4 == encoded / 16) by (bit_vector);
                let n = encoded % 16;
                assert(n < 16 ==> (n == 0 ==> 2u64 << n == 2) && (n == 1 ==> 2u64 << n == 4) && (n == 2 ==> 2u64 << n == 8) && (n == 3 ==> 2u64 << n == 16)
                    && (n == 4 ==> 2u64 << n == 32) && (n == 5 ==> 2u64 << n == 64) && (n == 6 ==> 2u64 << n == 128) && (n == 7 ==> 2u64 << n == 256)
                    && (n == 8 ==> 2u64 << n == 512) && (n == 9 ==> 2u64 << n == 1024) && (n == 10 ==> 2u64 << n == 2048) && (n == 11 ==> 2u64 << n == 4096)
                    && (n == 12 ==> 2u64 << n == 8192) && (n == 13 ==> 2u64 << n == 16384) && (n == 14 ==> 2u64 << n == 32768) && (n == 15 ==> 2u64 << n == 65536)) by (bit_vector);
            }
-- before `let quantize_factor`
            proof { assert(period >> 12 == period / 4096) by (bit_vector); }
-- before `let phase`
            proof {
                let (c, q) = ((encoded >> 4) as int, quantize_factor as int);
                assert(c * q <= 4096 * 16) by (nonlinear_arith) requires 0 <= c <= 4096, 0 <= q <= 16;
            }
== fn Era as Encode::encode_to
-- rewrite `(*period >> 12).max(1)` => `vx_max64(*period >> 12, 1)`
-- rewrite `(period.trailing_zeros() - 1).clamp(1, 15)` => `vx_clamp32(vx_trailing_zeros64(*period) - 1, 1, 15)`
-- before `let quantize_factor`
                proof {
                    let b = choose|b: Seq<u8>| #[trigger] era_at(b) matches Some((x, n)) && x == *self;
                    lemma_code(b);
                    lemma_era_bytes(b);
                    assert(*period >> 12 == *period / 4096) by (bit_vector);
                    let code = b[0] as nat + 256 * b[1] as nat;
                    assert forall|r: u64| r < 64 && #[trigger] (*period >> r) & 1 == 1 implies r == code % 16 + 1 by { lemma_tz(*period, code % 16, r as u32); }
                    assert(forall|n: u16, c: u64| n < 16 && c < 4096 ==> #[trigger] (n | ((c << 4i32) as u16)) == c * 16 + n) by (bit_vector);
                }
