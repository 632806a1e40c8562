== module decoding_sci
== prelude
use core::any::TypeId;
use core::mem::size_of;
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use num_bigint::{BigInt, BigUint};
use primitive_types::{H160, H256, H512};
use scale_info::{form::PortableForm, interner::UntrackedSymbol, Field, Type, TypeDef, TypeDefBitSequence, TypeDefPrimitive, Variant};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};
use substrate_crypto_light::{
    common::AccountId32,
    ecdsa::{Public as PublicEcdsa, Signature as SignatureEcdsa},
    ed25519::{Public as PublicEd25519, Signature as SignatureEd25519},
    sr25519::{Public as PublicSr25519, Signature as SignatureSr25519},
};
use crate::cards::*;
use crate::compacts::*;
use crate::error::*;
use crate::lib::*;
use crate::propagated::*;
use crate::special_indicators::*;
use crate::special_types::*;
use crate::traits::*;
//VERUS
pub type Got<T> = Result<(T, int), K>;
pub open spec fn is_store(n: nat) -> bool { n == 1 || n == 2 || n == 4 || n == 8 }

// ---- termination: data left, and types not on the chain yet
pub open spec fn left(b: Seq<u8>, pos: int) -> nat { if pos < b.len() { (b.len() - pos) as nat } else { 0 } }
pub open spec fn room(c: Seq<u32>) -> nat { (0x1_0000_0000 - c.to_set().len()) as nat }
pub proof fn lemma_room(c: Seq<u32>, id: u32)
    requires !c.contains(id)
    ensures room(c.push(id)) < room(c)
{
    let d = c.push(id);
    assert(d.to_set() =~= c.to_set().insert(id)) by {
        assert forall|x: u32| d.to_set().contains(x) <==> c.to_set().insert(id).contains(x) by {
            if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; assert(d[i] == x); }
            assert(d[c.len() as int] == id);
        }
    }
    lemma_u32s(d.to_set());
}
pub proof fn lemma_u32s(s: Set<u32>)
    ensures s.len() <= 0x1_0000_0000
{
    let f = |x: u32| x as int;
    let t = s.map(f);
    vstd::set_lib::lemma_int_range(0, 0x1_0000_0000);
    let r = vstd::set_lib::set_int_range(0, 0x1_0000_0000);
    assert(t.subset_of(r));
    vstd::set_lib::lemma_len_subset(t, r);
    vstd::set_lib::lemma_map_size(s, t, f);
}

// ---- elements of collections
pub struct Husked { pub info: Seq<Info>, pub set: SpecialtySet, pub cyc: Seq<u32>, pub ty: Type<PortableForm>, pub id: u32 }
/// innermost type of single-member wrappers and compacts around an element
pub open spec fn husk_from(reg: Registry, ty: Type<PortableForm>, id: u32, set: SpecialtySet, cyc: Seq<u32>, before: Seq<Info>) -> Result<Husked, K>
    decreases room(cyc)
{
    let info = info_add(before, info_of(ty));
    let here = Husked { info, set, cyc, ty, id };
    if !(hinted(ty) is None) { Ok(here) } else {
        match ty.type_def {
            TypeDef::Composite(x) => if x.fields@.len() != 1 { Ok(here) } else {
                let next = sym(x.fields@[0].ty);
                if cyc.contains(next) { Err(K::Cyclic) } else if !reg.contains_key(next) { Err(K::Plain) }
                else if room(cyc.push(next)) < room(cyc) {
                    husk_from(reg, reg[next], next, SpecialtySet { compact_at: set.compact_at, hint: first_hint(set.hint, hint_of_field(x.fields@[0])) }, cyc.push(next), info)
                } else { Err(K::Plain) }
            },
            TypeDef::Compact(x) => {
                let next = sym(x.type_param);
                if set.compact_at is Some { Err(K::InCompact(set.compact_at.unwrap())) }
                else if cyc.contains(next) { Err(K::Cyclic) } else if !reg.contains_key(next) { Err(K::Plain) }
                else if room(cyc.push(next)) < room(cyc) { husk_from(reg, reg[next], next, SpecialtySet { compact_at: Some(id), hint: set.hint }, cyc.push(next), info) }
                else { Err(K::Plain) }
            },
            _ => Ok(here),
        }
    }
}
pub open spec fn husk(reg: Registry, id: u32, cyc: Seq<u32>) -> Result<Husked, K> {
    if cyc.contains(id) { Err(K::Cyclic) } else if !reg.contains_key(id) { Err(K::Plain) }
    else { husk_from(reg, reg[id], id, SpecialtySet { compact_at: None, hint: Hint::None }, cyc.push(id), Seq::empty()) }
}
pub open spec fn husk_is(h: HuskedType, w: Husked) -> bool {
    husk_view(h) == w
}
// ---- enums
/// variant with this index byte
pub open spec fn with_index(v: Seq<Variant<PortableForm>>, index: u8) -> Option<Variant<PortableForm>>
    decreases v.len()
{
    if v.len() == 0 { None } else {
        match with_index(v.drop_last(), index) { Some(x) => Some(x), None => if v.last().index == index { Some(v.last()) } else { None } }
    }
}
pub proof fn lemma_with_index(v: Seq<Variant<PortableForm>>, i: int, index: u8)
    requires 0 <= i < v.len(), v[i].index == index, with_index(v.take(i), index) is None
    ensures with_index(v, index) == Some(v[i])
    decreases v.len()
{
    if i == v.len() - 1 { assert(v.take(i) =~= v.drop_last()); } else {
        assert(v.drop_last().take(i) =~= v.take(i));
        lemma_with_index(v.drop_last(), i, index);
    }
}
pub open spec fn picked(v: Seq<Variant<PortableForm>>, b: Seq<u8>, pos: int) -> Option<Variant<PortableForm>> {
    if 0 <= pos < b.len() { with_index(v, b[pos]) } else { None }
}
impl VxId for HuskedType { open spec fn id_spec(&self) -> u32 { self.id } fn vx_id(&self) -> (r: u32) { self.id } }
impl<'a> VxId for ResolvedTy { open spec fn id_spec(&self) -> u32 { self.id } fn vx_id(&self) -> (r: u32) { self.id } }

// ---- text
pub open spec fn text_at(b: Seq<u8>, pos: int, hint: Hint) -> Got<ParsedData> {
    match compact_at::<u32>(b, pos) {
        Some((n, p)) =>
            if p + n <= b.len() && vstd::utf8::valid_utf8(b.subrange(p, p + n)) {
                Ok((ParsedData::Text { text: string_of(vstd::utf8::decode_utf8(b.subrange(p, p + n))), specialty: role_str(hint) }, p + n))
            } else { Err(K::Plain) },
        None => Err(K::Plain),
    }
}
pub open spec fn primitive_at(t: TypeDefPrimitive, b: Seq<u8>, pos: int, s: SpecialtySet) -> Got<ParsedData> {
    match t {
        TypeDefPrimitive::Bool => checked_at::<bool>(b, pos, s.compact_at),
        TypeDefPrimitive::Char => checked_at::<char>(b, pos, s.compact_at),
        TypeDefPrimitive::Str => if s.compact_at is Some { Err(K::InCompact(s.compact_at.unwrap())) } else { text_at(b, pos, s.hint) },
        TypeDefPrimitive::U8 => number_at::<u8>(b, pos, s),
        TypeDefPrimitive::U16 => number_at::<u16>(b, pos, s),
        TypeDefPrimitive::U32 => number_at::<u32>(b, pos, s),
        TypeDefPrimitive::U64 => number_at::<u64>(b, pos, s),
        TypeDefPrimitive::U128 => number_at::<u128>(b, pos, s),
        TypeDefPrimitive::U256 => checked_at::<BigUint>(b, pos, s.compact_at),
        TypeDefPrimitive::I8 => checked_at::<i8>(b, pos, s.compact_at),
        TypeDefPrimitive::I16 => checked_at::<i16>(b, pos, s.compact_at),
        TypeDefPrimitive::I32 => checked_at::<i32>(b, pos, s.compact_at),
        TypeDefPrimitive::I64 => checked_at::<i64>(b, pos, s.compact_at),
        TypeDefPrimitive::I128 => checked_at::<i128>(b, pos, s.compact_at),
        TypeDefPrimitive::I256 => checked_at::<BigInt>(b, pos, s.compact_at),
    }
}
// ---- bit sequences
pub open spec fn bitseq_at<T: VxStore, O: BitOrder>(b: Seq<u8>, pos: int) -> Option<(BitVec<T, O>, int)> {
    match bits_at::<T, O>(b, pos) { Some((v, p)) => if v.len() <= most_bits() { Some((bitvec_of::<T, O>(v), p)) } else { None }, None => None }
}
/// bits in elements of eight bytes; S is what they are kept in, u32 where no wider store fits the target
pub open spec fn longs_at<S: VxStore, O: BitOrder>(b: Seq<u8>, pos: int) -> Option<(BitVec<S, O>, int)> {
    match bits_at::<u64, O>(b, pos) { Some((v, p)) => if longs_fit::<S>(v.len()) { Some((bitvec_of::<S, O>(v), p)) } else { None }, None => None }
}
/// what the codec reads, or what a bit sequence of u32 can hold
pub open spec fn longs_fit<S: VxStore>(n: nat) -> bool {
    if S::width() == 8 { n <= most_bits() } else { 8 * store_bytes(n, 8) <= usize::MAX / 8 }
}
/// bit order that a type stands for: true for the least significant first
pub open spec fn order_of(t: Type<PortableForm>) -> Option<bool> {
    if t.type_def is Composite {
        match ident(t.path) { Some(n) => if n@ == "Lsb0"@ { Some(true) } else if n@ == "Msb0"@ { Some(false) } else { None }, None => None }
    } else { None }
}
pub open spec fn order_in(reg: Registry, t: TypeDefBitSequence<PortableForm>) -> Option<bool> {
    if reg.contains_key(sym(t.bit_order_type)) { order_of(reg[sym(t.bit_order_type)]) } else { None }
}
pub open spec fn bits_found(reg: Registry, b: Seq<u8>, pos: int, t: TypeDefBitSequence<PortableForm>) -> Option<(ParsedData, int)> {
    if !reg.contains_key(sym(t.bit_store_type)) { None } else {
        match (reg[sym(t.bit_store_type)].type_def, order_in(reg, t)) {
            (TypeDef::Primitive(TypeDefPrimitive::U8), Some(true)) => match bitseq_at::<u8, Lsb0>(b, pos) { Some((v, p)) => Some((ParsedData::BitVecU8Lsb0(v), p)), None => None },
            (TypeDef::Primitive(TypeDefPrimitive::U8), Some(false)) => match bitseq_at::<u8, Msb0>(b, pos) { Some((v, p)) => Some((ParsedData::BitVecU8Msb0(v), p)), None => None },
            (TypeDef::Primitive(TypeDefPrimitive::U16), Some(true)) => match bitseq_at::<u16, Lsb0>(b, pos) { Some((v, p)) => Some((ParsedData::BitVecU16Lsb0(v), p)), None => None },
            (TypeDef::Primitive(TypeDefPrimitive::U16), Some(false)) => match bitseq_at::<u16, Msb0>(b, pos) { Some((v, p)) => Some((ParsedData::BitVecU16Msb0(v), p)), None => None },
            (TypeDef::Primitive(TypeDefPrimitive::U32), Some(true)) => match bitseq_at::<u32, Lsb0>(b, pos) { Some((v, p)) => Some((ParsedData::BitVecU32Lsb0(v), p)), None => None },
            (TypeDef::Primitive(TypeDefPrimitive::U32), Some(false)) => match bitseq_at::<u32, Msb0>(b, pos) { Some((v, p)) => Some((ParsedData::BitVecU32Msb0(v), p)), None => None },
            (TypeDef::Primitive(TypeDefPrimitive::U64), Some(true)) => match longs_at::<_, Lsb0>(b, pos) { Some((v, p)) => Some((ParsedData::BitVecU64Lsb0(v), p)), None => None },
            (TypeDef::Primitive(TypeDefPrimitive::U64), Some(false)) => match longs_at::<_, Msb0>(b, pos) { Some((v, p)) => Some((ParsedData::BitVecU64Msb0(v), p)), None => None },
            _ => None,
        }
    }
}
pub open spec fn pulled<T>(o: Option<(T, int)>) -> Got<T> { match o { Some(x) => Ok(x), None => Err(K::Plain) } }
/// result of a call that may move the position before it fails
pub open spec fn outcome<E: ExternalMemory, T>(r: Result<T, ParserError<E>>, p1: usize, want: Got<T>) -> bool {
    match r {
        Ok(v) => want == Ok::<(T, int), K>((v, p1 as int)),
        Err(e) => want == Err::<(T, int), K>(kind(e)),
    }
}
/// numbers in the halves of eight bytes
pub open spec fn halves(c: Seq<u8>, low: u32, high: u32) -> bool { low == le(c.take(4), 4) && high == le(c.skip(4), 4) }
/// position after the elements of a bit sequence
pub open spec fn bits_end(b: Seq<u8>, pos: int, w: int) -> Option<int> {
    match compact_at::<u32>(b, pos) { Some((n, p)) => Some(p + store_bytes(n as nat, w)), None => None }
}
pub proof fn lemma_store(n: nat, w: int)
    requires w == 1 || w == 2 || w == 4 || w == 8
    ensures store_bytes(n, w) * 8 >= n, 0 <= store_bytes(n, w) <= n / 8 + 8, store_bytes(n, w) % w == 0
{
    if w == 1 { assert(store_bytes(n, w) == (n as int + 7) / 8 * 1); }
    else if w == 2 { assert(store_bytes(n, w) == (n as int + 15) / 16 * 2); }
    else if w == 4 { assert(store_bytes(n, w) == (n as int + 31) / 32 * 4); }
    else { assert(store_bytes(n, w) == (n as int + 63) / 64 * 8); }
}
/// n bits rounded up to bytes, and these to elements
pub proof fn lemma_rounds(n: nat, w: int, bytes: int, elements: int)
    requires
        w == 1 || w == 2 || w == 4 || w == 8,
        bytes == if n % 8 == 0 { n as int / 8 } else { n as int / 8 + 1 },
        elements == if bytes % w == 0 { bytes / w } else { bytes / w + 1 },
    ensures elements * w == store_bytes(n, w), store_bytes(n, w) <= n / 8 + 8
{
    lemma_store(n, w);
    let m = n as int + 8 * w - 1;
    assert(bytes == (n as int + 7) / 8);
    assert(m / 8 == bytes + w - 1);
    vstd::arithmetic::div_mod::lemma_div_denominator(m, 8, w);
    if w == 1 { assert(elements == bytes); }
    else if w == 2 { assert(elements == (bytes + 1) / 2); }
    else if w == 4 { assert(elements == (bytes + 3) / 4); }
    else { assert(elements == (bytes + 7) / 8); }
    assert(elements == (n as int + 8 * w - 1) / (8 * w));
}
/// the bytes of a bit sequence hold it
pub proof fn lemma_cut<T: VxStore, O: BitOrder>(b: Seq<u8>, pos: int, end: int)
    requires bits_end(b, pos, T::width()) == Some(end), 0 <= pos <= end <= b.len(), is_store(T::width() as nat), T::width() > 0
    ensures match bits_at::<T, O>(b, pos) { Some((v, p)) => p == end && bits_at::<T, O>(b.subrange(pos, end), 0) == Some((v, end - pos)), None => false }
{
    let s = b.subrange(pos, end);
    let (n, p) = compact_at::<u32>(b, pos).unwrap();
    let w = T::width();
    lemma_store(n as nat, w);
    lemma_compact_prefix(b.skip(pos), end - pos);
    assert(b.skip(pos).take(end - pos) =~= s);
    assert(s.skip(0) =~= s);
    let v = bits_at::<T, O>(b, pos).unwrap().0;
    let u = bits_at::<T, O>(s, 0).unwrap().0;
    assert forall|i: int| 0 <= i < n implies #[trigger] v[i] == u[i] by {
        let k = O::index(8 * w, i % (8 * w));
        O::index_range(8 * w, i % (8 * w));
        lemma_index(n as nat, w, i, k);
        let x = i / (8 * w) * w + k / 8;
        assert(b.skip(p)[x] == s.skip(p - pos)[x]);
    }
    assert(u =~= v);
}
pub proof fn lemma_index(n: nat, w: int, i: int, k: int)
    requires w == 1 || w == 2 || w == 4 || w == 8, 0 <= i < n, 0 <= k < 8 * w
    ensures 0 <= i / (8 * w) * w + k / 8 < store_bytes(n, w)
{
    let (e, m) = (i / (8 * w), (n as int + 8 * w - 1) / (8 * w));
    if w == 1 { assert(i / 8 + 1 <= (n as int + 7) / 8); } else if w == 2 { assert(i / 16 + 1 <= (n as int + 15) / 16); }
    else if w == 4 { assert(i / 32 + 1 <= (n as int + 31) / 32); } else { assert(i / 64 + 1 <= (n as int + 63) / 64); }
    assert(e + 1 <= m);
    assert(0 <= e * w && e * w + w <= m * w) by (nonlinear_arith) requires 0 <= e, e + 1 <= m, w > 0;
    assert(0 <= k / 8 < w);
}
pub proof fn lemma_cuts<T: VxStore, O: BitOrder>(b: Seq<u8>, pos: int)
    requires 0 <= pos, is_store(T::width() as nat), T::width() > 0
    ensures match bits_end(b, pos, T::width()) {
        Some(end) => pos <= end && if end <= b.len() { match bits_at::<T, O>(b, pos) {
            Some((v, p)) => p == end && bits_at::<T, O>(b.subrange(pos, end), 0) == Some((v, end - pos)),
            None => false } } else { bits_at::<T, O>(b, pos) is None },
        None => bits_at::<T, O>(b, pos) is None,
    }
{
    if let Some(end) = bits_end(b, pos, T::width()) {
        let (n, p) = compact_at::<u32>(b, pos).unwrap();
        lemma_store(n as nat, T::width());
        if end <= b.len() { lemma_cut::<T, O>(b, pos, end); }
    }
}
pub broadcast proof fn lemma_bitseq<T: VxStore, O: BitOrder>(b: Seq<u8>, pos: int)
    ensures (#[trigger] bitseq_at::<T, O>(b, pos)) == match bits_at::<T, O>(b, pos) {
        Some((v, p)) => if v.len() <= most_bits() { Some((bitvec_of::<T, O>(v), p)) } else { None },
        None => None,
    }
{}
/// elements of eight bytes, as two numbers each
pub proof fn lemma_patched<O: BitOrder>(b: Seq<u8>, p: int, chunks: Seq<[u8; 8]>, r: Seq<u32>, i: int)
    requires
        0 <= p, 0 <= i < 64 * chunks.len(), p + 8 * chunks.len() <= b.len(), r.len() == 2 * chunks.len(),
        forall|k: int| 0 <= k < chunks.len() ==> (#[trigger] chunks[k])@ == b.subrange(p + k * 8, p + k * 8 + 8),
        forall|k: int| 0 <= k < chunks.len() ==> if O::low_first() { halves(#[trigger] chunks[k]@, r[2 * k], r[2 * k + 1]) } else { halves(chunks[k]@, r[2 * k + 1], r[2 * k]) },
    ensures bit_at::<O>(b.skip(p), 8, i) == bit_of32(r[i / 32], O::index(32, i % 32))
{
    let (e, j) = (i / 64, i % 64);
    O::index_range(64, j);
    O::index_range(32, j % 32);
    O::index_halves(j);
    let c = chunks[e]@;
    let half = if O::low_first() { j / 32 } else { 1 - j / 32 };
    let k = O::index(64, j);
    let m = O::index(32, j % 32);
    assert(i / 32 == 2 * e + j / 32 && i % 32 == j % 32);
    assert(k / 8 == 4 * half + m / 8 && k % 8 == m % 8);
    if half == 0 { lemma_bit32(r[i / 32], c.take(4), m); } else { lemma_bit32(r[i / 32], c.skip(4), m); }
    assert(b.skip(p)[e * 8 + k / 8] == c[k / 8]);
}
// ---- decoding: what SCALE assigns to the bytes under a type
pub open spec fn shown(r: Got<ParsedData>, info: Seq<Info>) -> Got<ExtendedData> {
    match r { Ok((data, p)) => Ok((ExtendedData { data, info: vec_of(info) }, p)), Err(k) => Err(k) }
}
pub open spec fn refused<T>(set: SpecialtySet) -> Got<T> { Err(K::InCompact(set.compact_at.unwrap())) }
/// known type `id`, entered from the chain `cyc`
pub open spec fn may_enter(reg: Registry, cyc: Seq<u32>, id: u32) -> Result<(), K> {
    if cyc.contains(id) { Err(K::Cyclic) } else if !reg.contains_key(id) { Err(K::Plain) } else { Ok(()) }
}
pub open spec fn one_member(b: Seq<u8>, f: Field<PortableForm>, data: ExtendedData) -> FieldData {
    FieldData { field_name: f.name, type_name: f.type_name, field_docs: docs_of(f.docs@), data }
}
pub open spec fn for_many(set: SpecialtySet, n: nat) -> SpecialtySet {
    if n > 1 { SpecialtySet { compact_at: set.compact_at, hint: forget(set.hint) } } else { set }
}
pub open spec fn collected_as(s: Seq<ParsedData>, info: Seq<Info>) -> ParsedData {
    match if s.len() == 0 { None } else { wrapped(s) } {
        Some(q) => ParsedData::Sequence(SequenceData { element_info: vec_of(info), data: q }),
        None => ParsedData::SequenceRaw(SequenceRawData { element_info: vec_of(info), data: vec_of(s) }),
    }
}
pub open spec fn item_shown(name: String, info: Info, v: VariantData, item: PalletSpecificItem) -> ParsedData {
    let d = PalletSpecificData { pallet_info: info, variant_docs: v.variant_docs, pallet_name: name, variant_name: v.variant_name, fields: v.fields };
    match item { PalletSpecificItem::Call => ParsedData::Call(Call(d)), PalletSpecificItem::Event => ParsedData::Event(Event(d)) }
}
/// data at a position as a type, and the position after it
pub open spec fn dec_ty(reg: Registry, b: Seq<u8>, pos: int, ty: Type<PortableForm>, id: u32, set: SpecialtySet, cyc: Seq<u32>, before: Seq<Info>) -> Got<ExtendedData>
    decreases left(b, pos), room(cyc), 1nat, 0nat
{
    let info = info_add(before, info_of(ty));
    let (known, p) = seen(reg, b, pos, ty);
    match known {
        SpecialtyTypeChecked::None => match ty.type_def {
            TypeDef::Composite(x) => match dec_fields(reg, b, pos, x.fields@, set, cyc) {
                Ok((v, p)) => Ok((ExtendedData { data: ParsedData::Composite(vec_of(v)), info: vec_of(info) }, p)),
                Err(k) => Err(k),
            },
            TypeDef::Variant(x) => if set.compact_at is Some { refused(set) } else if x.variants@.len() == 0 { shown(Ok((ParsedData::EmptyEnum, pos)), info) } else {
                match dec_variant(reg, b, pos, x.variants@) { Ok((v, p)) => shown(Ok((ParsedData::Variant(v), p)), info), Err(k) => Err(k) }
            },
            TypeDef::Sequence(x) => match compact_at::<u32>(b, pos) {
                Some((n, p)) => if 0 <= pos < p && pos < b.len() { dec_collection(reg, b, p, sym(x.type_param), n as nat, set, Seq::empty(), info) } else { Err(K::Plain) },
                None => Err(K::Plain),
            },
            TypeDef::Array(x) => dec_collection(reg, b, pos, sym(x.type_param), x.len as nat, set, cyc, info),
            TypeDef::Tuple(x) => if x.fields@.len() > 1 && set.compact_at is Some { refused(set) } else {
                match dec_items(reg, b, pos, x.fields@, x.fields@.len(), for_many(set, x.fields@.len()), cyc) {
                    Ok((v, p)) => Ok((ExtendedData { data: ParsedData::Tuple(vec_of(v)), info: vec_of(info) }, p)),
                    Err(k) => Err(k),
                }
            },
            TypeDef::Primitive(x) => shown(primitive_at(x, b, pos, set), info),
            TypeDef::Compact(x) => {
                let next = sym(x.type_param);
                if set.compact_at is Some { refused(set) } else {
                    match may_enter(reg, cyc, next) {
                        Ok(_) => if room(cyc.push(next)) < room(cyc) {
                            dec_ty(reg, b, pos, reg[next], next, SpecialtySet { compact_at: Some(id), hint: set.hint }, cyc.push(next), info)
                        } else { Err(K::Plain) },
                        Err(k) => Err(k),
                    }
                }
            },
            TypeDef::BitSequence(x) => if set.compact_at is Some { refused(set) } else { shown(pulled(bits_found(reg, b, pos, x)), info) },
        },
        SpecialtyTypeChecked::PalletSpecific { pallet_name, pallet_info, pallet_variant, item_ty_id, variants, item } =>
            if set.compact_at is Some { refused(set) } else if p < pos { Err(K::Plain) } else {
                match dec_variant(reg, b, p, variants@) { Ok((v, p)) => shown(Ok((item_shown(pallet_name, pallet_info, v, item), p)), info), Err(k) => Err(k) }
            },
        SpecialtyTypeChecked::Era => if set.compact_at is Some { refused(set) } else { shown(era_found(b, p), info) },
        SpecialtyTypeChecked::H256 => if set.compact_at is Some { refused(set) } else { shown(hash_at(b, p, role_hash(set.hint)), info) },
        SpecialtyTypeChecked::AccountId32 => shown(checked_at::<AccountId32>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::H160 => shown(checked_at::<H160>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::H512 => shown(checked_at::<H512>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::Perbill => shown(checked_at::<Perbill>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::Percent => shown(checked_at::<Percent>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::Permill => shown(checked_at::<Permill>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::Perquintill => shown(checked_at::<Perquintill>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::PerU16 => shown(checked_at::<PerU16>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::PublicEd25519 => shown(checked_at::<PublicEd25519>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::PublicSr25519 => shown(checked_at::<PublicSr25519>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::PublicEcdsa => shown(checked_at::<PublicEcdsa>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::SignatureEd25519 => shown(checked_at::<SignatureEd25519>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::SignatureSr25519 => shown(checked_at::<SignatureSr25519>(b, p, set.compact_at), info),
        SpecialtyTypeChecked::SignatureEcdsa => shown(checked_at::<SignatureEcdsa>(b, p, set.compact_at), info),
    }
}
/// members of a struct, one right after the other
pub open spec fn dec_fields(reg: Registry, b: Seq<u8>, pos: int, fs: Seq<Field<PortableForm>>, set: SpecialtySet, cyc: Seq<u32>) -> Got<Seq<FieldData>>
    decreases left(b, pos), room(cyc), 0nat, fs.len() + 1
{
    if fs.len() > 1 && set.compact_at is Some { refused(set) } else { dec_members(reg, b, pos, fs, fs.len(), for_many(set, fs.len()), cyc) }
}
pub open spec fn dec_members(reg: Registry, b: Seq<u8>, pos: int, fs: Seq<Field<PortableForm>>, n: nat, set: SpecialtySet, cyc: Seq<u32>) -> Got<Seq<FieldData>>
    decreases left(b, pos), room(cyc), 0nat, n
{
    if n == 0 { Ok((Seq::empty(), pos)) } else {
        match dec_members(reg, b, pos, fs, (n - 1) as nat, set, cyc) {
            Ok((v, p)) => {
                let f = fs[n - 1];
                let next = sym(f.ty);
                match may_enter(reg, cyc, next) {
                    Ok(_) => if pos <= p && room(cyc.push(next)) < room(cyc) {
                        match dec_ty(reg, b, p, reg[next], next, SpecialtySet { compact_at: set.compact_at, hint: first_hint(set.hint, hint_of_field(f)) }, cyc.push(next), Seq::empty()) {
                            Ok((x, q)) => Ok((v.push(one_member(b, f, x)), q)),
                            Err(k) => Err(k),
                        }
                    } else { Err(K::Plain) },
                    Err(k) => Err(k),
                }
            },
            Err(k) => Err(k),
        }
    }
}
/// members of a tuple, one right after the other
pub open spec fn dec_items(reg: Registry, b: Seq<u8>, pos: int, ts: Seq<UntrackedSymbol<TypeId>>, n: nat, set: SpecialtySet, cyc: Seq<u32>) -> Got<Seq<ExtendedData>>
    decreases left(b, pos), room(cyc), 0nat, n
{
    if n == 0 { Ok((Seq::empty(), pos)) } else {
        match dec_items(reg, b, pos, ts, (n - 1) as nat, set, cyc) {
            Ok((v, p)) => {
                let next = sym(ts[n - 1]);
                if !reg.contains_key(next) { Err(K::Plain) } else if cyc.contains(next) { Err(K::Cyclic) }
                else if pos <= p && room(cyc.push(next)) < room(cyc) {
                    match dec_ty(reg, b, p, reg[next], next, SpecialtySet { compact_at: set.compact_at, hint: first_hint(set.hint, hint_of_path(reg[next].path)) }, cyc.push(next), Seq::empty()) {
                        Ok((x, q)) => Ok((v.push(x), q)),
                        Err(k) => Err(k),
                    }
                } else { Err(K::Plain) }
            },
            Err(k) => Err(k),
        }
    }
}
/// n elements of a vector or array
pub open spec fn dec_collection(reg: Registry, b: Seq<u8>, pos: int, element: u32, n: nat, set: SpecialtySet, cyc: Seq<u32>, info: Seq<Info>) -> Got<ExtendedData>
    decreases left(b, pos), room(cyc), 0nat, 0nat
{
    if set.compact_at is Some { refused(set) } else {
        match husk(reg, element, cyc) {
            Ok(h) => if room(h.cyc) < room(cyc) {
                match dec_elements(reg, b, pos, h, n) {
                    Ok((s, p)) => shown(Ok((collected_as(s, h.info), p)), info),
                    Err(k) => Err(k),
                }
            } else { Err(K::Plain) },
            Err(k) => Err(k),
        }
    }
}
pub open spec fn dec_elements(reg: Registry, b: Seq<u8>, pos: int, h: Husked, n: nat) -> Got<Seq<ParsedData>>
    decreases left(b, pos), room(h.cyc), 2nat, n
{
    if n == 0 { Ok((Seq::empty(), pos)) } else {
        match dec_elements(reg, b, pos, h, (n - 1) as nat) {
            Ok((v, p)) => if pos <= p {
                match dec_ty(reg, b, p, h.ty, h.id, h.set, h.cyc, Seq::empty()) {
                    Ok((x, q)) => Ok((v.push(x.data), q)),
                    Err(k) => Err(k),
                }
            } else { Err(K::Plain) },
            Err(k) => Err(k),
        }
    }
}
/// variant selected by the byte at the position
pub open spec fn dec_variant(reg: Registry, b: Seq<u8>, pos: int, variants: Seq<Variant<PortableForm>>) -> Got<VariantData>
    decreases left(b, pos), 0nat, 0nat, 0nat
{
    match picked(variants, b, pos) {
        Some(v) => match dec_fields(reg, b, pos + 1, v.fields@, SpecialtySet { compact_at: None, hint: Hint::None }, Seq::empty()) {
            Ok((f, p)) => Ok((VariantData { variant_name: v.name, variant_docs: docs_of(v.docs@), fields: vec_of(f) }, p)),
            Err(k) => Err(k),
        },
        None => Err(K::Plain),
    }
}
/// data at a position as the type with this number
pub open spec fn decoded(reg: Registry, b: Seq<u8>, pos: int, id: u32, set: SpecialtySet, cyc: Seq<u32>, before: Seq<Info>) -> Got<ExtendedData> {
    if reg.contains_key(id) { dec_ty(reg, b, pos, reg[id], id, set, cyc, before) } else { Err(K::Plain) }
}
pub open spec fn dec_input(reg: Registry, b: Seq<u8>, pos: int, t: Ty, set: SpecialtySet, cyc: Seq<u32>, before: Seq<Info>) -> Got<ExtendedData> {
    match t { Ty::Resolved(a) => dec_ty(reg, b, pos, a.ty, a.id, set, cyc, before), Ty::Symbol(s) => decoded(reg, b, pos, sym(*s), set, cyc, before) }
}
pub open spec fn outcome_seq<E: ExternalMemory, T>(r: Result<Vec<T>, ParserError<E>>, p1: usize, want: Got<Seq<T>>) -> bool {
    match r {
        Ok(v) => want == Ok::<(Seq<T>, int), K>((v@, p1 as int)),
        Err(e) => want == Err::<(Seq<T>, int), K>(kind(e)),
    }
}
pub open spec fn husk_view(h: HuskedType) -> Husked {
    Husked { info: h.info@, set: h.checker.specialty_set, cyc: h.checker.cycle_check@, ty: h.ty, id: h.id }
}
pub proof fn lemma_members_err(reg: Registry, b: Seq<u8>, pos: int, fs: Seq<Field<PortableForm>>, n: nat, set: SpecialtySet, cyc: Seq<u32>, i: nat)
    requires i <= n, dec_members(reg, b, pos, fs, i, set, cyc) is Err
    ensures dec_members(reg, b, pos, fs, n, set, cyc) == dec_members(reg, b, pos, fs, i, set, cyc)
    decreases n
{ if i < n { lemma_members_err(reg, b, pos, fs, (n - 1) as nat, set, cyc, i); } }
pub proof fn lemma_items_err(reg: Registry, b: Seq<u8>, pos: int, ts: Seq<UntrackedSymbol<TypeId>>, n: nat, set: SpecialtySet, cyc: Seq<u32>, i: nat)
    requires i <= n, dec_items(reg, b, pos, ts, i, set, cyc) is Err
    ensures dec_items(reg, b, pos, ts, n, set, cyc) == dec_items(reg, b, pos, ts, i, set, cyc)
    decreases n
{ if i < n { lemma_items_err(reg, b, pos, ts, (n - 1) as nat, set, cyc, i); } }
pub proof fn lemma_elements_err(reg: Registry, b: Seq<u8>, pos: int, h: Husked, n: nat, i: nat)
    requires i <= n, dec_elements(reg, b, pos, h, i) is Err
    ensures dec_elements(reg, b, pos, h, n) == dec_elements(reg, b, pos, h, i)
    decreases n
{ if i < n { lemma_elements_err(reg, b, pos, h, (n - 1) as nat, i); } }
/// the call at a position
pub open spec fn call_at(reg: Registry, b: Seq<u8>, pos: int, id: Option<u32>) -> Got<Call> {
    match id {
        Some(i) => match decoded(reg, b, pos, i, SpecialtySet { compact_at: None, hint: Hint::None }, Seq::empty(), Seq::empty()) {
            Ok((x, p)) => match x.data { ParsedData::Call(c) => Ok((c, p)), _ => Err(K::Plain) },
            Err(k) => Err(k),
        },
        None => Err(K::Plain),
    }
}
/// all of a call
pub open spec fn call_within(reg: Registry, b: Seq<u8>, start: int, end: int, id: Option<u32>) -> Result<Call, K> {
    match call_at(reg, b.take(end), start, id) { Ok((c, p)) => if p == end { Ok(c) } else { Err(K::Unused(p)) }, Err(k) => Err(k) }
}
== fn decode_as_call_unmarked
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> kept(*old(position), *final(position), data.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> match r {
                Ok(c) => call_at(metadata.known_types(), data.bytes(), *old(position) as int, metadata.call_id()) == Ok::<(Call, int), K>((c, *final(position) as int)),
                Err(e) => call_at(metadata.known_types(), data.bytes(), *old(position) as int, metadata.call_id()) == Err::<(Call, int), K>(kind_signable(e)),
            }
== fn decode_as_call
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> {
                let want = call_within(metadata.known_types(), marked_data.whole().bytes(), marked_data.call_from() as int, marked_data.call_to() as int, metadata.call_id());
                match r { Ok(c) => want == Ok::<Call, K>(c), Err(e) => want == Err::<Call, K>(kind_signable(e)) }
            }
== fn find_bit_order_ty
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r matches Ok(o) ==> final(ext_memory).faults() == old(ext_memory).faults() && order_in(registry.reg(), *bit_ty) == Some(o is Lsb0),
            r matches Err(e) ==> kind_registry(e) is Plain && (final(ext_memory).faults() == old(ext_memory).faults() ==> order_in(registry.reg(), *bit_ty) is None)
== fn BitVecPositions::new
-- spec
        requires is_store(vstd::layout::size_of::<T>())
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r matches Ok(a) ==> final(ext_memory).faults() == old(ext_memory).faults() && a.bitvec_start == position && a.minimal_length == a.bitvec_end - position
                && bits_end(data.bytes(), position as int, vstd::layout::size_of::<T>() as int) == Some(a.bitvec_end as int)
                && compact_at::<u32>(data.bytes(), position as int) == Some((a.bit_length as u32, a.data_start as int))
                && a.bit_length <= u32::MAX && position < a.data_start <= data.bytes().len() <= isize::MAX
                && a.number_of_elements * vstd::layout::size_of::<T>() == a.bitvec_end - a.data_start,
            r matches Err(e) ==> kind(e) is Plain && (final(ext_memory).faults() == old(ext_memory).faults() ==> compact_at::<u32>(data.bytes(), position as int) is None)
-- before `let slice_length`
    proof { lemma_rounds(bit_length as nat, vstd::layout::size_of::<T>() as int, byte_length as int, number_of_elements as int); }
== fn into_bitvec_decode
-- spec
        requires is_store(vstd::layout::size_of::<T>())
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r matches Ok(s) ==> final(ext_memory).faults() == old(ext_memory).faults()
                && bits_end(data.bytes(), *old(position) as int, vstd::layout::size_of::<T>() as int) == Some(*final(position) as int)
                && moved(*old(position), *final(position), data.bytes())
                && s.as_ref_spec()@ == data.bytes().subrange(*old(position) as int, *final(position) as int),
            r matches Err(e) ==> kind(e) is Plain && *final(position) == *old(position) && (final(ext_memory).faults() == old(ext_memory).faults() ==>
                (bits_end(data.bytes(), *old(position) as int, vstd::layout::size_of::<T>() as int) matches Some(end) ==> end > data.bytes().len()))
== fn decode_type_def_bit_sequence
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> moved(*old(position), *final(position), data.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() || r is Err,
            final(ext_memory).faults() == old(ext_memory).faults() ==> outcome(r, *final(position), pulled(bits_found(registry.reg(), data.bytes(), *old(position) as int, *bit_ty)))
-- start
    hide(bits_at); hide(bits_end); hide(bitseq_at); hide(order_of);
    proof {
        broadcast use lemma_bitseq;
        let (b, pos) = (data.bytes(), *position as int);
        lemma_cuts::<u8, Lsb0>(b, pos); lemma_cuts::<u8, Msb0>(b, pos); lemma_cuts::<u16, Lsb0>(b, pos); lemma_cuts::<u16, Msb0>(b, pos);
        lemma_cuts::<u32, Lsb0>(b, pos); lemma_cuts::<u32, Msb0>(b, pos); lemma_cuts::<u64, Lsb0>(b, pos); lemma_cuts::<u64, Msb0>(b, pos);
    }
-- rewrite `<BitVec<$a, $b>>::decode_all(&mut into_decode.as_ref())` => `<BitVec<$a, $b>>::vx_decode_bits(into_decode.as_ref())`
== fn decode_type_def_primitive
-- spec
        ensures r is Ok ==> moved(*old(position), *final(position), data.bytes()),
            leaf(r, old(ext_memory).faults(), final(ext_memory).faults(), *old(position), *final(position), primitive_at(*found_ty, data.bytes(), *old(position) as int, specialty_set))
== fn decode_str
-- spec
        ensures r is Ok ==> moved(*old(position), *final(position), data.bytes()),
            leaf(r, old(ext_memory).faults(), final(ext_memory).faults(), *old(position), *final(position), text_at(data.bytes(), *old(position) as int, hint))
-- rewrite `String::from_utf8($x)` => `vx_utf8($x)`
-- start
    proof { broadcast use axiom_string_bc; }
== trait Patched
== fn Patched::patch_bitvec_u64
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> moved(*old(position), *final(position), data.bytes()),
            r matches Ok(v) ==> final(ext_memory).faults() == old(ext_memory).faults()
                && longs_at::<u32, Self>(data.bytes(), *old(position) as int) == Some((v, *final(position) as int)),
            r matches Err(e) ==> kind(e) is Plain && (final(ext_memory).faults() == old(ext_memory).faults() ==>
                longs_at::<u32, Self>(data.bytes(), *old(position) as int) is None)
== fn * as Patched::patch_bitvec_u64
-- loop 1
    invariant
        data.bytes().len() <= isize::MAX,
        bitvec_positions.number_of_elements * 8 == bitvec_positions.bitvec_end - bitvec_positions.data_start,
        *position == bitvec_positions.bitvec_start,
        bits_end(data.bytes(), *position as int, 8) == Some(bitvec_positions.bitvec_end as int),
        compact_at::<u32>(data.bytes(), *position as int) == Some((bitvec_positions.bit_length as u32, bitvec_positions.data_start as int)),
        ext_memory.faults() == old(ext_memory).faults(),
        bitvec_positions.data_start <= data.bytes().len(), bitvec_positions.number_of_elements <= u32::MAX,
        __e1 == bitvec_positions.number_of_elements, __i1 <= __e1,
        __i1 > 0 ==> bitvec_positions.data_start + __i1 * 8 <= data.bytes().len(),
        data_chunked@.len() == __i1,
        forall|k: int| 0 <= k < __i1 ==> (#[trigger] data_chunked@[k])@ == data.bytes().subrange(bitvec_positions.data_start + k * 8, bitvec_positions.data_start + k * 8 + 8),
    decreases __e1 - __i1
-- before `bv_reformed.split_off`
    proof { lemma_store(bitvec_positions.bit_length as nat, 8); }
-- before `Ok(bv_reformed)`
    proof {
        let (b, p, n) = (data.bytes(), bitvec_positions.data_start as int, bitvec_positions.bit_length as int);
        lemma_store(n as nat, 8);
        assert(p + bitvec_positions.number_of_elements * 8 <= b.len());
        let v = bits_at::<u64, Self>(b, bitvec_positions.bitvec_start as int).unwrap().0;
        assert forall|i: int| 0 <= i < n implies #[trigger] v[i] == bits(bv_reformed)[i] by {
            lemma_patched::<Self>(b, p, chunks@, reformed@, i);
        }
        assert(v =~= bits(bv_reformed));
        axiom_bitvec_ext(bv_reformed);
    }
-- before `let data_reformed`
    let ghost chunks = data_chunked;
-- after `let data_reformed = $x;`
    let ghost reformed = data_reformed;
-- before `return Err`
    proof { lemma_store(bitvec_positions.bit_length as nat, 8); }
== fn reform_vec_lsb0
-- spec
        ensures r@.len() == 2 * data_chunked@.len(), forall|i: int| 0 <= i < data_chunked@.len() ==> halves(#[trigger] data_chunked@[i]@, r@[2 * i], r@[2 * i + 1])
-- rewrite `element[..BYTES_PER_ELEMENT_U32]` => `vx_head(element, BYTES_PER_ELEMENT_U32)`
-- rewrite `element[BYTES_PER_ELEMENT_U32..]` => `vx_tail(element, BYTES_PER_ELEMENT_U32)`
-- rewrite `u32::from_le_bytes($x)` => `vx_le32($x)`
-- loop 1
    invariant
        __s1@ == data_chunked@, __i1 <= __s1@.len(), data_reformed@.len() == 2 * __i1,
        forall|i: int| 0 <= i < __i1 ==> halves(#[trigger] data_chunked@[i]@, data_reformed@[2 * i], data_reformed@[2 * i + 1]),
    decreases __s1@.len() - __i1
== fn reform_vec_msb0
-- spec
        ensures r@.len() == 2 * data_chunked@.len(), forall|i: int| 0 <= i < data_chunked@.len() ==> halves(#[trigger] data_chunked@[i]@, r@[2 * i + 1], r@[2 * i])
-- rewrite `element[..BYTES_PER_ELEMENT_U32]` => `vx_head(&element, BYTES_PER_ELEMENT_U32)`
-- rewrite `element[BYTES_PER_ELEMENT_U32..]` => `vx_tail(&element, BYTES_PER_ELEMENT_U32)`
-- rewrite `u32::from_be_bytes($x)` => `vx_be32($x)`
-- rewrite `u64::from_le_bytes($x)` => `vx_le64($x)`
-- rewrite `number.to_be_bytes()` => `vx_to_be64(number)`
-- loop 1
    invariant
        __s1@ == data_chunked@, __i1 <= __s1@.len(), data_reformed@.len() == 2 * __i1,
        forall|i: int| 0 <= i < __i1 ==> halves(#[trigger] data_chunked@[i]@, data_reformed@[2 * i + 1], data_reformed@[2 * i]),
    decreases __s1@.len() - __i1
-- after `let element = $x;`
    proof {
        lemma_le_inj(element@.reverse(), x@, 8);
        assert(element@.take(4).reverse() =~= x@.skip(4)) by { assert forall|i: int| 0 <= i < 4 implies element@.take(4).reverse()[i] == x@.skip(4)[i] by { assert(element@.reverse()[4 + i] == x@[4 + i]); } }
        assert(element@.skip(4).reverse() =~= x@.take(4)) by { assert forall|i: int| 0 <= i < 4 implies element@.skip(4).reverse()[i] == x@.take(4)[i] by { assert(element@.reverse()[i] == x@[i]); } }
    }
== fn husk_type
-- attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r matches Ok(h) ==> final(ext_memory).faults() == old(ext_memory).faults() && (husk(registry.reg(), sym(*entry_symbol), checker.cycle_check@) matches Ok(w) && husk_is(h, w))
                && room(h.checker.cycle_check@) < room(checker.cycle_check@),
            r matches Err(e) ==> (final(ext_memory).faults() == old(ext_memory).faults() ==> husk(registry.reg(), sym(*entry_symbol), checker.cycle_check@) == Err::<Husked, K>(kind_registry(e)))
-- loop 1
    invariant_except_break
        husk(registry.reg(), sym(*entry_symbol), __c0) == husk_from(registry.reg(), ty, id, checker.specialty_set, checker.cycle_check@, info@),
    invariant
        ext_memory.faults() == old(ext_memory).faults(),
        room(checker.cycle_check@) < room(__c0),
    ensures
        ext_memory.faults() == old(ext_memory).faults(),
        room(checker.cycle_check@) < room(__c0),
        (husk(registry.reg(), sym(*entry_symbol), __c0) matches Ok(w) && husk_is(HuskedType { info, checker, ty, id }, w)),
    decreases room(checker.cycle_check@)
-- loop 1 start
    proof {
        assert forall|n: u32| !checker.cycle_check@.contains(n) implies room(#[trigger] checker.cycle_check@.push(n)) < room(checker.cycle_check@) by { lemma_room(checker.cycle_check@, n); }
    }
-- start
    let ghost __c0 = checker.cycle_check@;
    proof {
        assert forall|n: u32| !checker.cycle_check@.contains(n) implies room(#[trigger] checker.cycle_check@.push(n)) < room(checker.cycle_check@) by { lemma_room(checker.cycle_check@, n); }
    }
== fn pick_variant
-- rewrite `let mut found_variant = None;` => `let mut found_variant: Option<&Variant<PortableForm>> = None;` ?
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r matches Ok(v) ==> final(ext_memory).faults() == old(ext_memory).faults() && position < data.bytes().len() <= isize::MAX
                && picked(variants@, data.bytes(), position as int) == Some(*v),
            r matches Err(e) ==> kind(e) is Plain && (final(ext_memory).faults() == old(ext_memory).faults() ==> picked(variants@, data.bytes(), position as int) is None)
-- loop 1
    invariant_except_break
        found_variant is None, with_index(__s1@.take(__i1 as int), enum_index) is None,
    invariant
        __s1@ == variants@, __i1 <= __s1@.len(),
    ensures
        match found_variant { Some(v) => with_index(variants@, enum_index) == Some(*v), None => with_index(variants@.take(variants@.len() as int), enum_index) is None },
    decreases __s1@.len() - __i1
-- loop 1 start
    proof {
        assert(__s1@.take(__i1 + 1).drop_last() =~= __s1@.take(__i1 as int));
        if __s1@[__i1 as int].index == enum_index { lemma_with_index(__s1@, __i1 as int, enum_index); }
        assert(__s1@.take(__s1@.len() as int) =~= __s1@);
    }
-- before `match found_variant`
    proof { assert(variants@.take(variants@.len() as int) =~= variants@); }
== fn decode_with_type
-- attr #[verifier::rlimit(300)] #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> kept(*old(position), *final(position), data.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> outcome(r, *final(position), dec_input(registry.reg(), data.bytes(), *old(position) as int, *ty_input,
                propagated.checker.specialty_set, propagated.checker.cycle_check@, propagated.info@))
        decreases left(data.bytes(), *position as int), room(propagated.checker.cycle_check@), 1nat, 0nat
-- start
    hide(fixed_at); hide(picked); hide(info_of); hide(hint_of_path); hide(husk); hide(clean); hide(info_add); hide(wrapped);
    hide(seen); hide(primitive_at); hide(bits_found); hide(hash_at); hide(era_found); hide(compact_at);
    let ghost __c = propagated.checker.cycle_check@;
    let ghost __f = ext_memory.faults();
    let ghost __s = propagated.checker.specialty_set;
    proof {
        broadcast use axiom_vec_bc, lemma_clean, lemma_clean_same;
        assert forall|n: u32| !__c.contains(n) implies room(#[trigger] __c.push(n)) < room(__c) by { lemma_room(__c, n); }
    }
-- loop 1
    invariant
        __s1@ == x.fields@, __i1 <= __s1@.len(),
        propagated.checker.specialty_set == for_many(__s, x.fields@.len()), propagated.checker.cycle_check@ == __c,
        kept(__p, *position, data.bytes()),
        ext_memory.faults() >= __g, clean(__g, ext_memory.faults()),
        ext_memory.faults() == __f ==> dec_items(registry.reg(), data.bytes(), __p as int, x.fields@, __i1 as nat, for_many(__s, x.fields@.len()), __c)
            == Ok::<(Seq<ExtendedData>, int), K>((tuple_data_set@, *position as int)),
    decreases __s1@.len() - __i1
-- loop 1 start
    proof { let w = dec_items(registry.reg(), data.bytes(), __p as int, x.fields@, (__i1 + 1) as nat, for_many(__s, x.fields@.len()), __c); }
-- before `let mut tuple_data_set`
    let ghost __p = *position;
    let ghost __g = ext_memory.faults();
    proof {
        let set = for_many(__s, x.fields@.len());
        let n = x.fields@.len();
        assert forall|i: nat| i <= n && (#[trigger] dec_items(registry.reg(), data.bytes(), __p as int, x.fields@, i, set, __c)) is Err
            implies dec_items(registry.reg(), data.bytes(), __p as int, x.fields@, n, set, __c) == dec_items(registry.reg(), data.bytes(), __p as int, x.fields@, i, set, __c) by
        { lemma_items_err(registry.reg(), data.bytes(), __p as int, x.fields@, n, set, __c, i); }
    }
== fn decode_fields
-- attr #[verifier::loop_isolation(false)]
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> kept(*old(position), *final(position), data.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> outcome_seq(r, *final(position), dec_fields(registry.reg(), data.bytes(), *old(position) as int, fields@,
                checker.specialty_set, checker.cycle_check@))
        decreases left(data.bytes(), *position as int), room(checker.cycle_check@), 0nat, 0nat
-- start
    let ghost __c = checker.cycle_check@;
    let ghost __p = *position;
    let ghost __f = ext_memory.faults();
    let ghost __set = for_many(checker.specialty_set, fields@.len());
    proof {
        assert forall|n: u32| !__c.contains(n) implies room(#[trigger] __c.push(n)) < room(__c) by { lemma_room(__c, n); }
        let n = fields@.len();
        assert forall|i: nat| i <= n && (#[trigger] dec_members(registry.reg(), data.bytes(), __p as int, fields@, i, __set, __c)) is Err
            implies dec_members(registry.reg(), data.bytes(), __p as int, fields@, n, __set, __c) == dec_members(registry.reg(), data.bytes(), __p as int, fields@, i, __set, __c) by
        { lemma_members_err(registry.reg(), data.bytes(), __p as int, fields@, n, __set, __c, i); }
    }
-- loop 1
    invariant
        __s1@ == fields@, __i1 <= __s1@.len(),
        checker.specialty_set == __set, checker.cycle_check@ == __c,
        kept(__p, *position, data.bytes()),
        ext_memory.faults() >= __f, clean(__f, ext_memory.faults()),
        ext_memory.faults() == __f ==> dec_members(registry.reg(), data.bytes(), __p as int, fields@, __i1 as nat, __set, __c) == Ok::<(Seq<FieldData>, int), K>((out@, *position as int)),
    decreases __s1@.len() - __i1
-- loop 1 start
    proof { let w = dec_members(registry.reg(), data.bytes(), __p as int, fields@, (__i1 + 1) as nat, __set, __c); }
== fn decode_elements_set
-- attr #[verifier::loop_isolation(false)]
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> kept(*old(position), *final(position), data.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> outcome(r, *final(position), dec_collection(registry.reg(), data.bytes(), *old(position) as int, sym(*element),
                number_of_elements as nat, propagated.checker.specialty_set, propagated.checker.cycle_check@, propagated.info@))
        decreases left(data.bytes(), *position as int), room(propagated.checker.cycle_check@), 0nat, 0nat
-- start
    let ghost __p = *position;
    let ghost __f = ext_memory.faults();
    proof { broadcast use axiom_vec_bc; }
-- before `let mut out`
    proof {
        let h = husk_view(husked);
        assert forall|i: nat| i <= number_of_elements && (#[trigger] dec_elements(registry.reg(), data.bytes(), __p as int, h, i)) is Err
            implies dec_elements(registry.reg(), data.bytes(), __p as int, h, number_of_elements as nat) == dec_elements(registry.reg(), data.bytes(), __p as int, h, i) by
        { lemma_elements_err(registry.reg(), data.bytes(), __p as int, h, number_of_elements as nat, i); }
    }
-- loop 1 start
    proof { let n = dec_elements(registry.reg(), data.bytes(), __p as int, husk_view(husked), (__i1 + 1) as nat); }
-- loop 1
    invariant
        __e1 == number_of_elements, __i1 <= __e1, out@.len() == __i1,
        kept(__p, *position, data.bytes()),
        ext_memory.faults() >= __f, clean(__f, ext_memory.faults()),
        ext_memory.faults() == __f ==> dec_elements(registry.reg(), data.bytes(), __p as int, husk_view(husked), __i1 as nat) == Ok::<(Seq<ParsedData>, int), K>((out@, *position as int)),
    decreases __e1 - __i1
== fn decode_variant
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> moved(*old(position), *final(position), data.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> outcome(r, *final(position), dec_variant(registry.reg(), data.bytes(), *old(position) as int, variants@))
        decreases left(data.bytes(), *position as int), 0nat, 0nat, 0nat
-- start
    proof { broadcast use axiom_vec_bc; }
