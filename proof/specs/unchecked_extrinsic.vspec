== module unchecked_extrinsic
== prelude
use core::cmp::Ordering;
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use crate::cards::*;
use crate::compacts::*;
use crate::decoding_sci::*;
use crate::error::*;
use crate::lib::*;
use crate::propagated::*;
use crate::special_indicators::*;
use crate::traits::*;
//VERUS
/// a value of a type, wherever it is
pub open spec fn part(reg: Registry, b: Seq<u8>, pos: int, id: u32) -> Got<ExtendedData> {
    decoded(reg, b, pos, id, SpecialtySet { compact_at: None, hint: Hint::None }, Seq::empty(), Seq::empty())
}
pub open spec fn call_part(reg: Registry, b: Seq<u8>, pos: int, id: u32) -> Got<Call> {
    match part(reg, b, pos, id) { Ok((x, p)) => match x.data { ParsedData::Call(c) => Ok((c, p)), _ => Err(K::Plain) }, Err(k) => Err(k) }
}
/// address, signature, extra and call, in this order
pub open spec fn signed_at(reg: Registry, b: Seq<u8>, pos: int, t: ExtrinsicTypeParams) -> Got<UncheckedExtrinsic> {
    match part(reg, b, pos, sym(t.address_ty)) {
        Ok((address, p)) => match part(reg, b, p, sym(t.signature_ty)) {
            Ok((signature, q)) => match part(reg, b, q, sym(t.extra_ty)) {
                Ok((extra, s)) => match call_part(reg, b, s, sym(t.call_ty)) {
                    Ok((call, e)) => Ok((UncheckedExtrinsic::Signed { address, signature, extra, call }, e)),
                    Err(k) => Err(k),
                },
                Err(k) => Err(k),
            },
            Err(k) => Err(k),
        },
        Err(k) => Err(k),
    }
}
pub open spec fn unsigned_at(reg: Registry, b: Seq<u8>, pos: int, t: ExtrinsicTypeParams) -> Got<UncheckedExtrinsic> {
    match call_part(reg, b, pos, sym(t.call_ty)) { Ok((call, e)) => Ok((UncheckedExtrinsic::Unsigned { call }, e)), Err(k) => Err(k) }
}
/// the extrinsic that all of the data is, and the position its parts end at
pub open spec fn extrinsic_at<E: ExternalMemory, M: AsCompleteMetadata<E>>(m: M, b: Seq<u8>) -> Got<UncheckedExtrinsic> {
    match (m.type_params(), m.format_version(), compact_at::<u32>(b, 0)) {
        (Some(t), Some(v), Some((n, p))) =>
            if p + n < b.len() { Err(K::Unused(p + n)) }
            else if p + n > b.len() || p >= b.len() { Err(K::Plain) }
            else if b[p] % 128 != v { Err(K::Plain) }
            else if b[p] >= 128 { signed_at(m.known_types(), b, p + 1, t) }
            else { unsigned_at(m.known_types(), b, p + 1, t) },
        (Some(_), None, Some((n, p))) => if p + n < b.len() { Err(K::Unused(p + n)) } else { Err(K::Plain) },
        _ => Err(K::Plain),
    }
}
== type UncheckedExtrinsic
== fn decode_as_unchecked_extrinsic
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            // how far the parts reach is left open: KNOWN FINDING C16-bytes-after-call
            final(ext_memory).faults() == old(ext_memory).faults() ==> match r {
                Ok(x) => extrinsic_at::<E, M>(*metadata, input.bytes()) matches Ok((y, _)) && x == y,
                Err(e) => extrinsic_at::<E, M>(*metadata, input.bytes()) == Err::<(UncheckedExtrinsic, int), K>(kind_unchecked(e)),
            }
-- start
    proof {
        assert(forall|x: u8| #[trigger] (x & 0x7f) == x % 128) by (bit_vector);
        assert(forall|x: u8| (#[trigger] (x & !0x7f) == 0) == (x < 128)) by (bit_vector);
        assert(forall|x: u8| #[trigger] (x & 0x80) == (if x < 128 { 0u8 } else { 0x80u8 })) by (bit_vector);
    }
