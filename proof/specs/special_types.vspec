== module special_types
== prelude
use core::mem::size_of;
use external_memory_tools::{AddressableBuffer, ExternalMemory};
use num_bigint::{BigInt, BigUint};
use parity_scale_codec::{DecodeAll, HasCompact};
use primitive_types::{H160, H256, H512};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};
use substrate_crypto_light::{
    common::AccountId32,
    ecdsa::{Public as PublicEcdsa, Signature as SignatureEcdsa},
    ed25519::{Public as PublicEd25519, Signature as SignatureEd25519},
    sr25519::{Public as PublicSr25519, Signature as SignatureSr25519},
};
use crate::additional_types::*;
use crate::cards::*;
use crate::compacts::*;
use crate::error::*;
use crate::printing_balance::AsBalance;
use crate::propagated::*;
use crate::special_indicators::*;
macro_rules! elem { ($($t: ty, $v: ident), *) => { verus! { $(
impl Elem for $t {
    open spec fn one(d: ParsedData) -> Option<Self> {
        match d { ParsedData::$v { value, specialty } => if specialty is None { Some(value) } else { None }, _ => None }
    }
}
)* } } }
elem!(u8, PrimitiveU8, u16, PrimitiveU16, u32, PrimitiveU32, u64, PrimitiveU64, u128, PrimitiveU128);
//VERUS
global size_of PerU16 == 2;
global size_of Percent == 1;
global size_of Permill == 4;
global size_of Perbill == 4;
global size_of Perquintill == 8;
/// element as a value of this kind without a role
pub trait Elem: Sized { spec fn one(d: ParsedData) -> Option<Self>; }
impl Elem for Vec<u8> { open spec fn one(d: ParsedData) -> Option<Self> { byte_string(d) } }
/// bytes of an item of known length
pub open spec fn cut(b: Seq<u8>, pos: int, len: nat) -> Seq<u8> { b.subrange(pos, pos + len) }
/// item of known length at a position, and the position after it, if the bytes are there and hold it
pub open spec fn at_len<T>(b: Seq<u8>, pos: int, len: nat, v: Option<T>) -> Option<(T, int)> {
    if 0 <= pos && pos + len <= b.len() { match v { Some(x) => Some((x, pos + len)), None => None } } else { None }
}
/// value of a fixed-length type at a position, and the position after it
pub open spec fn fixed_at<T: StableLength>(b: Seq<u8>, pos: int) -> Option<(T, int)> {
    at_len(b, pos, T::fixed_len(), T::value_of(cut(b, pos, T::fixed_len())))
}
pub open spec fn number_raw<T: StableLength + VxCompact>(b: Seq<u8>, pos: int, s: SpecialtySet) -> Option<(T, int)> {
    if s.compact_at is Some { compact_at::<T>(b, pos) } else { fixed_at::<T>(b, pos) }
}
pub open spec fn number_at<T: UnsignedInteger>(b: Seq<u8>, pos: int, s: SpecialtySet) -> Result<(ParsedData, int), K> {
    match number_raw::<T>(b, pos, s) { Some((v, p)) => Ok((T::shown_as(v, role_uint(s.hint)), p)), None => Err(K::Plain) }
}
pub open spec fn checked_at<T: CheckCompact>(b: Seq<u8>, pos: int, compact: Option<u32>) -> Result<(ParsedData, int), K> {
    if compact is Some && !T::may_be_compact() { Err(K::InCompact(compact.unwrap())) }
    else { match if compact is Some { T::compact_form(b, pos) } else { fixed_at::<T>(b, pos) } {
        Some((v, p)) => Ok((T::presented(v), p)),
        None => Err(K::Plain),
    } }
}
pub open spec fn hash_at(b: Seq<u8>, pos: int, role: SpecialtyH256) -> Result<(ParsedData, int), K> {
    match fixed_at::<H256>(b, pos) {
        Some((h, p)) => Ok((match role {
            SpecialtyH256::GenesisHash => ParsedData::GenesisHash(h),
            SpecialtyH256::BlockHash => ParsedData::BlockHash(h),
            SpecialtyH256::None => ParsedData::H256(h),
        }, p)),
        None => Err(K::Plain),
    }
}
pub open spec fn era_found(b: Seq<u8>, pos: int) -> Result<(ParsedData, int), K> {
    if 0 <= pos <= b.len() {
        match era_at(b.skip(pos)) { Some((e, n)) => Ok((ParsedData::Era(e), pos + n)), None => Err(K::Plain) }
    } else { Err(K::Plain) }
}
/// contents of an element that is a byte string
pub open spec fn byte_string(d: ParsedData) -> Option<Vec<u8>> {
    match d {
        ParsedData::Sequence(s) => match s.data { Sequence::U8(a) => Some(a), _ => None },
        ParsedData::SequenceRaw(a) => if a.data@.len() == 0 { Some(vec_of(Seq::empty())) } else { None },
        _ => None,
    }
}
/// description of bytes common to the first byte strings, if any has one
pub open spec fn byte_info(s: Seq<ParsedData>) -> Option<Vec<Info>>
    decreases s.len()
{
    if s.len() == 0 { None } else {
        match byte_info(s.drop_last()) {
            Some(i) => Some(i),
            None => match s.last() { ParsedData::Sequence(a) => Some(a.element_info), _ => None },
        }
    }
}
pub open spec fn all_byte_strings(s: Seq<ParsedData>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> byte_string(#[trigger] s[i]) is Some && (s[i] matches ParsedData::Sequence(a) ==> byte_info(s) == Some(a.element_info))
}
pub proof fn lemma_byte_info(s: Seq<ParsedData>, i: int)
    requires 0 <= i <= s.len()
    ensures
        byte_info(s.take(i)) is Some ==> byte_info(s) == byte_info(s.take(i)),
        i < s.len() && s[i] is Sequence ==> byte_info(s.take(i + 1)) is Some && byte_info(s) == byte_info(s.take(i + 1)),
    decreases s.len() - i
{
    if i == s.len() { assert(s.take(i) =~= s); } else {
        lemma_byte_info(s, i + 1);
        assert(s.take(i + 1).drop_last() =~= s.take(i));
    }
}
/// typed collection that stands for these elements
pub open spec fn wrapped(s: Seq<ParsedData>) -> Option<Sequence> {
    if s.len() == 0 { None } else {
        match s[0] {
            ParsedData::PrimitiveU8 { .. } => u8::collected(s),
            ParsedData::PrimitiveU16 { .. } => u16::collected(s),
            ParsedData::PrimitiveU32 { .. } => u32::collected(s),
            ParsedData::PrimitiveU64 { .. } => u64::collected(s),
            ParsedData::PrimitiveU128 { .. } => u128::collected(s),
            ParsedData::Sequence(a) => if a.data is U8 { <Vec<u8>>::collected(s) } else { None },
            _ => None,
        }
    }
}
pub open spec fn sequence_len(q: Sequence) -> nat {
    match q {
        Sequence::U8(v) => v@.len(), Sequence::U16(v) => v@.len(), Sequence::U32(v) => v@.len(), Sequence::U64(v) => v@.len(),
        Sequence::U128(v) => v@.len(), Sequence::VecU8 { sequence, .. } => sequence@.len(),
    }
}
/// element of a typed collection, as what it was before
pub open spec fn sequence_item(q: Sequence, i: int, d: ParsedData) -> bool {
    match q {
        Sequence::U8(v) => d == ParsedData::PrimitiveU8 { value: v@[i], specialty: SpecialtyUnsignedInteger::None },
        Sequence::U16(v) => d == ParsedData::PrimitiveU16 { value: v@[i], specialty: SpecialtyUnsignedInteger::None },
        Sequence::U32(v) => d == ParsedData::PrimitiveU32 { value: v@[i], specialty: SpecialtyUnsignedInteger::None },
        Sequence::U64(v) => d == ParsedData::PrimitiveU64 { value: v@[i], specialty: SpecialtyUnsignedInteger::None },
        Sequence::U128(v) => d == ParsedData::PrimitiveU128 { value: v@[i], specialty: SpecialtyUnsignedInteger::None },
        Sequence::VecU8 { sequence, inner_element_info } => match d {
            ParsedData::Sequence(a) => a.element_info == inner_element_info && a.data == Sequence::U8(sequence@[i]),
            ParsedData::SequenceRaw(a) => a.data@.len() == 0 && sequence@[i]@.len() == 0,
            _ => false,
        },
    }
}
/// elements as values of one kind
pub open spec fn items<T: Elem>(s: Seq<ParsedData>) -> Seq<T> { Seq::new(s.len(), |i: int| T::one(s[i]).unwrap()) }
pub open spec fn all_items<T: Elem>(s: Seq<ParsedData>) -> bool { forall|i: int| 0 <= i < s.len() ==> T::one(#[trigger] s[i]) is Some }
/// C06: the typed collection has the same elements in the same order, all of one kind and without a role
pub proof fn lemma_typed_collection(s: Seq<ParsedData>)
    requires s.len() <= usize::MAX
    ensures wrapped(s) matches Some(q) ==> sequence_len(q) == s.len() && forall|i: int| 0 <= i < s.len() ==> sequence_item(q, i, #[trigger] s[i])
{
    if wrapped(s) is Some {
        axiom_vec_of(items::<u8>(s)); axiom_vec_of(items::<u16>(s)); axiom_vec_of(items::<u32>(s)); axiom_vec_of(items::<u64>(s));
        axiom_vec_of(items::<u128>(s)); axiom_vec_of(items::<Vec<u8>>(s)); axiom_vec_of(Seq::<u8>::empty());
        lemma_byte_info(s, 0);
    }
}
== trait StableLength
    /// encoded length
    spec fn fixed_len() -> nat;
    /// value that exactly these bytes are the encoding of
    spec fn value_of(b: Seq<u8>) -> Option<Self>;
== fn StableLength::len_encoded
-- spec
        ensures r == Self::fixed_len(), 1 <= r <= 65
== fn StableLength::shift_position
-- spec
        requires *old(position) + Self::fixed_len() <= usize::MAX
        ensures *final(position) == *old(position) + Self::fixed_len()
== fn StableLength::cut_and_decode
-- spec
        ensures r is Ok ==> moved(*old(position), *final(position), data.bytes()),
            leaf(r, old(ext_memory).faults(), final(ext_memory).faults(), *old(position), *final(position), plain(at_len(data.bytes(), *old(position) as int, Self::fixed_len(), Self::value_of(cut(data.bytes(), *old(position) as int, Self::fixed_len())))))
== fn * as StableLength::len_encoded
-- rewrite `substrate_crypto_light::common::HASH_256_LEN` => `vx_len_account()` ?
-- rewrite `substrate_crypto_light::ecdsa::PUBLIC_LEN` => `vx_len_public_ecdsa()` ?
-- rewrite `substrate_crypto_light::ed25519::PUBLIC_LEN` => `vx_len_public_ed25519()` ?
-- rewrite `substrate_crypto_light::sr25519::PUBLIC_LEN` => `vx_len_public_sr25519()` ?
-- rewrite `substrate_crypto_light::ecdsa::SIGNATURE_LEN` => `vx_len_signature_ecdsa()` ?
-- rewrite `substrate_crypto_light::ed25519::SIGNATURE_LEN` => `vx_len_signature_ed25519()` ?
-- rewrite `substrate_crypto_light::sr25519::SIGNATURE_LEN` => `vx_len_signature_sr25519()` ?
-- start
    proof { let n = Self::fixed_len(); }
== fn * as StableLength::cut_and_decode
-- rewrite `<Self>::decode_all(&mut slice_to_decode.as_ref())` => `vx_decode_all::<Self>(slice_to_decode.as_ref())` ?
-- rewrite `<u32>::from_le_bytes($x)` => `vx_le32($x)` ?
-- rewrite `char::from_u32($x)` => `vx_char($x)` ?
-- rewrite `Self::from_bytes_le($x)` => `vx_big_uint($x)` ?
-- rewrite `Self::from_signed_bytes_le($x)` => `vx_big_int($x)` ?
-- start
    proof { broadcast use axiom_array_bc; let n = (Self::fixed_len(), Self::value_of(Seq::empty())); }
== trait UnsignedInteger
    spec fn shown_as(v: Self, role: SpecialtyUnsignedInteger) -> ParsedData;
== fn UnsignedInteger::parse_unsigned_integer
-- spec
        requires Self::compact_max() <= u128::MAX
        ensures r is Ok ==> moved(*old(position), *final(position), data.bytes()),
            leaf(r, old(ext_memory).faults(), final(ext_memory).faults(), *old(position), *final(position),
            match number_raw::<Self>(data.bytes(), *old(position) as int, specialty_set) {
                Some((v, p)) => Ok((Self::shown_as(v, role_uint(specialty_set.hint)), p)),
                None => Err(K::Plain),
            })
== fn * as UnsignedInteger::parse_unsigned_integer
== trait CheckCompact
    spec fn may_be_compact() -> bool;
    spec fn compact_form(b: Seq<u8>, pos: int) -> Option<(Self, int)>;
    spec fn presented(v: Self) -> ParsedData;
== fn CheckCompact::parse_check_compact
-- spec
        ensures r is Ok ==> moved(*old(position), *final(position), data.bytes()),
            leaf(r, old(ext_memory).faults(), final(ext_memory).faults(), *old(position), *final(position),
            if compact_at is Some && !Self::may_be_compact() { Err(K::InCompact(compact_at.unwrap())) }
            else { match if compact_at is Some { Self::compact_form(data.bytes(), *old(position) as int) } else { fixed_at::<Self>(data.bytes(), *old(position) as int) } {
                Some((v, p)) => Ok((Self::presented(v), p)),
                None => Err(K::Plain),
            } })
== fn * as CheckCompact::parse_check_compact
== trait Collectable
    spec fn collected(s: Seq<ParsedData>) -> Option<Sequence>;
== fn Collectable::husk_set
-- spec
        ensures r == Self::collected(parsed_data_set@)
== fn * as Collectable::husk_set
-- loop 1
    invariant
        __s1@ == parsed_data_set@, __i1 <= __s1@.len(), out@.len() == __i1,
        forall|k: int| 0 <= k < __i1 ==> Self::one(#[trigger] parsed_data_set@[k]) == Some(out@[k]),
    decreases __s1@.len() - __i1
-- before `Some(Sequence::$v(out))`
    proof { assert(out@ =~= items::<Self>(parsed_data_set@)); axiom_vec_ext(out); }
== each u8 U8 | u16 U16 | u32 U32 | u64 U64 | u128 U128 as Collectable
    open spec fn collected(s: Seq<ParsedData>) -> Option<Sequence> {
        if all_items::<Self>(s) { Some(Sequence::$1(vec_of(items::<Self>(s)))) } else { None }
    }
== impl Vec<u8> as Collectable
    open spec fn collected(s: Seq<ParsedData>) -> Option<Sequence> {
        if all_byte_strings(s) {
            Some(Sequence::VecU8 { sequence: vec_of(items::<Self>(s)), inner_element_info: match byte_info(s) { Some(i) => i, None => vec_of(Seq::empty()) } })
        } else { None }
    }
== fn Vec<u8> as Collectable::husk_set
-- rewrite `b != &sequence_data.element_info` => `!vx_eq(b, &sequence_data.element_info)`
-- rewrite `inner_element_info.unwrap_or_default()` => `match inner_element_info { Some(a) => a, None => Vec::new() }`
-- loop 1
    invariant
        __s1@ == parsed_data_set@, __i1 <= __s1@.len(), out@.len() == __i1,
        forall|k: int| 0 <= k < __i1 ==> byte_string(#[trigger] parsed_data_set@[k]) == Some(out@[k]),
        forall|k: int| 0 <= k < __i1 ==> ((#[trigger] parsed_data_set@[k]) matches ParsedData::Sequence(a) ==> inner_element_info == Some(a.element_info)),
        inner_element_info == byte_info(parsed_data_set@.take(__i1 as int)),
    decreases __s1@.len() - __i1
-- loop 1 start
    proof {
        broadcast use axiom_vec_bc;
        lemma_byte_info(parsed_data_set@, __i1 as int);
        assert(parsed_data_set@.take(__i1 + 1).drop_last() =~= parsed_data_set@.take(__i1 as int));
    }
-- before `let inner_element_info`
    proof {
        assert(parsed_data_set@.take(parsed_data_set@.len() as int) =~= parsed_data_set@);
        assert(out@ =~= items::<Self>(parsed_data_set@)); axiom_vec_ext(out);
        assert(all_byte_strings(parsed_data_set@));
    }
-- after `let inner_element_info = $x;`
    proof { broadcast use axiom_vec_bc; assert(inner_element_info@ =~= Seq::empty() || byte_info(parsed_data_set@) == Some(inner_element_info)); }
-- after `out.push(Vec::new())`
    ; proof { axiom_vec_ext(out@.last()); assert(out@.last()@ =~= Seq::<u8>::empty()); }
== fn wrap_sequence
-- spec
        ensures r == wrapped(set@)
== fn special_case_h256
-- spec
        ensures r is Ok ==> moved(*old(position), *final(position), data.bytes()),
            leaf(r, old(ext_memory).faults(), final(ext_memory).faults(), *old(position), *final(position), hash_at(data.bytes(), *old(position) as int, specialty_hash))
== fn special_case_era
-- spec
        ensures r is Ok ==> moved(*old(position), *final(position), data.bytes()),
            leaf(r, old(ext_memory).faults(), final(ext_memory).faults(), *old(position), *final(position), era_found(data.bytes(), *old(position) as int))
-- rewrite `Era::decode_all(&mut $x.as_ref())` => `vx_decode_all::<Era>($x.as_ref())`
== each bool 1 | i8 1 | i16 2 | i32 4 | i64 8 | i128 16 | u8 1 | u16 2 | u32 4 | u64 8 | u128 16 | PerU16 2 | Percent 1 | Permill 4 | Perbill 4 | Perquintill 8 as StableLength
    open spec fn fixed_len() -> nat { $1 }
    open spec fn value_of(b: Seq<u8>) -> Option<Self> { parse_all::<$0>(b) }
== impl BigUint as StableLength
    open spec fn fixed_len() -> nat { 32 }
    open spec fn value_of(b: Seq<u8>) -> Option<Self> { Some(big_uint(le(b, 32))) }
== impl BigInt as StableLength
    open spec fn fixed_len() -> nat { 32 }
    open spec fn value_of(b: Seq<u8>) -> Option<Self> { Some(big_int(signed(le(b, 32), 32))) }
== impl char as StableLength
    open spec fn fixed_len() -> nat { 4 }
    open spec fn value_of(b: Seq<u8>) -> Option<Self> { char_of(le(b, 4)) }
== each H160 20 | H256 32 | H512 64 | AccountId32 32 | PublicEcdsa 33 | PublicEd25519 32 | PublicSr25519 32 | SignatureEcdsa 65 | SignatureEd25519 64 | SignatureSr25519 64 as StableLength
    open spec fn fixed_len() -> nat { $1 }
    open spec fn value_of(b: Seq<u8>) -> Option<Self> { Some($0(array_of::<$1>(b))) }
== each u8 U8 | u16 U16 | u32 U32 | u64 U64 | u128 U128 as UnsignedInteger
    open spec fn shown_as(v: Self, role: SpecialtyUnsignedInteger) -> ParsedData { ParsedData::Primitive$1 { value: v, specialty: role } }
== each PerU16 | Percent | Permill | Perbill | Perquintill as CheckCompact
    open spec fn may_be_compact() -> bool { true }
    open spec fn compact_form(b: Seq<u8>, pos: int) -> Option<(Self, int)> { compact_at::<Self>(b, pos) }
    open spec fn presented(v: Self) -> ParsedData { ParsedData::$0(v) }
== each bool PrimitiveBool | char PrimitiveChar | i8 PrimitiveI8 | i16 PrimitiveI16 | i32 PrimitiveI32 | i64 PrimitiveI64 | i128 PrimitiveI128 | BigInt PrimitiveI256 | BigUint PrimitiveU256 | AccountId32 Id | PublicEd25519 PublicEd25519 | PublicSr25519 PublicSr25519 | PublicEcdsa PublicEcdsa | SignatureEd25519 SignatureEd25519 | SignatureSr25519 SignatureSr25519 | SignatureEcdsa SignatureEcdsa | H160 H160 | H512 H512 as CheckCompact
    open spec fn may_be_compact() -> bool { false }
    open spec fn compact_form(b: Seq<u8>, pos: int) -> Option<(Self, int)> { None }
    open spec fn presented(v: Self) -> ParsedData { ParsedData::$1(v) }
