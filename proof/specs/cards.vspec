== module cards
== prelude
use frame_metadata::v14::StorageEntryMetadata;
use num_bigint::{BigInt, BigUint};
use primitive_types::{H160, H256, H512};
use scale_info::{form::PortableForm, Field, Path, Type, Variant};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};
use substrate_crypto_light::{
    common::AccountId32,
    ecdsa::{Public as PublicEcdsa, Signature as SignatureEcdsa},
    ed25519::{Public as PublicEd25519, Signature as SignatureEd25519},
    sr25519::{Public as PublicSr25519, Signature as SignatureSr25519},
};
use crate::additional_types::Era;
use crate::printing_balance::{exact, AsBalance, Currency};
use crate::lib::ShortSpecs;
use crate::special_indicators::{PalletSpecificItem, SpecialtyStr, SpecialtyUnsignedInteger};
//VERUS
pub open spec fn docs_of(d: Seq<String>) -> String { string_of(joined(d, "\n"@)) }
pub open spec fn info_of(ty: Type<PortableForm>) -> Info { Info { docs: docs_of(ty.docs@), path: ty.path } }
pub open spec fn info_empty(i: Info) -> bool { i.docs@.len() == 0 && i.path.segments@.len() == 0 }
/// what is shown about a type: nothing if it has neither path nor documentation
pub open spec fn info_add(s: Seq<Info>, i: Info) -> Seq<Info> { if info_empty(i) { s } else { s.push(i) } }
pub uninterp spec fn base58_of<T>(v: T, prefix: u16) -> Seq<char>;
pub uninterp spec fn picture_of<T>(v: T) -> Seq<u8>;
/// the address text of a key under the network's prefix, and its picture
pub open spec fn id_of<T>(v: T, prefix: u16) -> IdData { IdData { base58: string_of(base58_of(v, prefix)), identicon: vec_of(picture_of(v)) } }
#[verifier::external_body]
pub fn vx_base58<T>(v: &T, prefix: u16) -> (r: String)
    ensures r@ == base58_of(*v, prefix)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_identicon<T>(v: &T) -> (r: Vec<u8>)
    ensures r@ == picture_of(*v)
{ unimplemented!() }
pub open spec fn hex_digit(n: int) -> char { if n < 10 { (n + '0' as int) as u8 as char } else { (n - 10 + 'a' as int) as u8 as char } }
/// two hexadecimal digits for each byte
pub open spec fn hex_of(b: Seq<u8>) -> Seq<char> { Seq::new(2 * b.len(), |k: int| hex_digit(if k % 2 == 0 { b[k / 2] as int / 16 } else { b[k / 2] as int % 16 })) }
/// `hex::encode`
#[verifier::external_body]
pub fn vx_hex(b: &Vec<u8>) -> (r: String)
    ensures r@ == hex_of(b@)
{ hex::encode(b) }
// ---- what the cards of a value are

/// a card's content: this one, or the chain's currency for this amount
pub enum CardIs { Same(ParserCard), Balance(nat), Tip(nat) }
/// what a card must be
pub struct Wanted { pub card: CardIs, pub indent: int, pub info: Seq<InfoFlat> }
pub open spec fn fits(c: ExtendedCard, w: Wanted, sp: ShortSpecs) -> bool {
    &&& c.indent == w.indent
    &&& c.info_flat@ == w.info
    &&& match w.card {
        CardIs::Same(p) => c.parser_card == p,
        CardIs::Balance(n) => c.parser_card matches ParserCard::Balance(x) && exact(x.number@, x.units@, n, sp.decimals as nat, sp.unit@),
        CardIs::Tip(n) => c.parser_card matches ParserCard::Tip(x) && exact(x.number@, x.units@, n, sp.decimals as nat, sp.unit@),
    }
}
pub open spec fn all_fit(c: Seq<ExtendedCard>, w: Seq<Wanted>, sp: ShortSpecs) -> bool {
    c.len() == w.len() && forall|i: int| 0 <= i < c.len() ==> fits(#[trigger] c[i], w[i], sp)
}
pub open spec fn one(p: ParserCard, indent: int, info: Seq<InfoFlat>) -> Seq<Wanted> { seq![Wanted { card: CardIs::Same(p), indent, info }] }
pub open spec fn flat(i: Info) -> InfoFlat {
    InfoFlat {
        docs: if i.docs@.len() == 0 { None } else { Some(i.docs) },
        path_flat: if i.path.segments@.len() == 0 { None } else { Some(string_of(joined(i.path.segments@, " >> "@))) },
    }
}
pub open spec fn flats(s: Seq<Info>) -> Seq<InfoFlat> { Seq::new(s.len(), |k: int| flat(s[k])) }
pub open spec fn docs_only(d: Seq<char>) -> Seq<InfoFlat> { if d.len() == 0 { Seq::empty() } else { seq![InfoFlat { docs: Some(string_of(d)), path_flat: None }] } }
/// pallets whose amounts are in the chain's currency
pub open spec fn holds_currency(pallet: Seq<char>) -> bool { pallet == "Balances"@ || pallet == "Staking"@ }
/// a number under its role
pub open spec fn number_card(plain: ParserCard, n: nat, role: SpecialtyUnsignedInteger, bal: bool, name: Seq<char>) -> CardIs {
    match role {
        SpecialtyUnsignedInteger::None => CardIs::Same(plain),
        SpecialtyUnsignedInteger::Balance => if bal { CardIs::Balance(n) } else { CardIs::Same(ParserCard::BalanceRaw(string_of(dec(n)))) },
        SpecialtyUnsignedInteger::Tip => CardIs::Tip(n),
        SpecialtyUnsignedInteger::TipAsset => CardIs::Same(ParserCard::TipAsset(string_of(dec(n)))),
        SpecialtyUnsignedInteger::Nonce => CardIs::Same(ParserCard::Nonce(string_of(dec(n)))),
        SpecialtyUnsignedInteger::SpecVersion => CardIs::Same(ParserCard::NameSpecVersion { name: string_of(name), version: string_of(dec(n)) }),
        SpecialtyUnsignedInteger::TxVersion => CardIs::Same(ParserCard::TxVersion(string_of(dec(n)))),
    }
}
pub open spec fn text_of(b: Seq<u8>) -> Option<String> { if vstd::utf8::valid_utf8(b) { Some(string_of(vstd::utf8::decode_utf8(b))) } else { None } }
pub open spec fn bytes_card(b: Seq<u8>, info: Seq<Info>) -> ParserCard {
    ParserCard::SequenceU8 { hex: string_of(hex_of(b)), text: text_of(b), element_info_flat: vec_of(flats(info)) }
}
pub open spec fn announced(n: nat, element_info: Seq<Info>, indent: int, info: Seq<InfoFlat>) -> Seq<Wanted> {
    one(ParserCard::SequenceAnnounced { len: n as usize, element_info_flat: vec_of(flats(element_info)) }, indent, info)
}
pub open spec fn each_u16(v: Seq<u16>, indent: int) -> Seq<Wanted> { Seq::new(v.len(), |k: int| Wanted { card: CardIs::Same(ParserCard::PrimitiveU16(v[k])), indent, info: Seq::empty() }) }
pub open spec fn each_u32(v: Seq<u32>, indent: int) -> Seq<Wanted> { Seq::new(v.len(), |k: int| Wanted { card: CardIs::Same(ParserCard::PrimitiveU32(v[k])), indent, info: Seq::empty() }) }
pub open spec fn each_u64(v: Seq<u64>, indent: int) -> Seq<Wanted> { Seq::new(v.len(), |k: int| Wanted { card: CardIs::Same(ParserCard::PrimitiveU64(v[k])), indent, info: Seq::empty() }) }
pub open spec fn each_u128(v: Seq<u128>, indent: int) -> Seq<Wanted> { Seq::new(v.len(), |k: int| Wanted { card: CardIs::Same(ParserCard::PrimitiveU128(v[k])), indent, info: Seq::empty() }) }
pub open spec fn each_bytes(v: Seq<Vec<u8>>, info: Seq<Info>, indent: int) -> Seq<Wanted> { Seq::new(v.len(), |k: int| Wanted { card: CardIs::Same(bytes_card(v[k]@, info)), indent, info: Seq::empty() }) }
pub open spec fn wanted_seq(s: SequenceData, info: Seq<InfoFlat>, indent: int) -> Seq<Wanted> {
    match s.data {
        Sequence::U8(v) => one(bytes_card(v@, s.element_info@), indent, info),
        Sequence::U16(v) => announced(v@.len(), s.element_info@, indent, info) + each_u16(v@, indent + 1),
        Sequence::U32(v) => announced(v@.len(), s.element_info@, indent, info) + each_u32(v@, indent + 1),
        Sequence::U64(v) => announced(v@.len(), s.element_info@, indent, info) + each_u64(v@, indent + 1),
        Sequence::U128(v) => announced(v@.len(), s.element_info@, indent, info) + each_u128(v@, indent + 1),
        Sequence::VecU8 { sequence, inner_element_info } => announced(sequence@.len(), s.element_info@, indent, info) + each_bytes(sequence@, inner_element_info@, indent + 1),
    }
}
/// cards of a value: every leaf once, in order, each at its depth, with announcing cards before what they hold
pub open spec fn wanted(d: ParsedData, info: Seq<InfoFlat>, indent: int, bal: bool, sp: ShortSpecs, name: Seq<char>) -> Seq<Wanted>
    decreases d
{
    match d {
        ParsedData::BitVecU8Lsb0(x) => one(ParserCard::BitVecU8Lsb0(x), indent, info),
        ParsedData::BitVecU16Lsb0(x) => one(ParserCard::BitVecU16Lsb0(x), indent, info),
        ParsedData::BitVecU32Lsb0(x) => one(ParserCard::BitVecU32Lsb0(x), indent, info),
        ParsedData::BitVecU64Lsb0(x) => one(ParserCard::BitVecU64Lsb0(x), indent, info),
        ParsedData::BitVecU8Msb0(x) => one(ParserCard::BitVecU8Msb0(x), indent, info),
        ParsedData::BitVecU16Msb0(x) => one(ParserCard::BitVecU16Msb0(x), indent, info),
        ParsedData::BitVecU32Msb0(x) => one(ParserCard::BitVecU32Msb0(x), indent, info),
        ParsedData::BitVecU64Msb0(x) => one(ParserCard::BitVecU64Msb0(x), indent, info),
        ParsedData::BlockHash(x) => one(ParserCard::BlockHash(x), indent, info),
        ParsedData::Era(x) => one(ParserCard::Era(x), indent, info),
        ParsedData::GenesisHash(x) => one(ParserCard::GenesisHash(x), indent, info),
        ParsedData::H160(x) => one(ParserCard::H160(x), indent, info),
        ParsedData::H256(x) => one(ParserCard::H256(x), indent, info),
        ParsedData::H512(x) => one(ParserCard::H512(x), indent, info),
        ParsedData::PerU16(x) => one(ParserCard::PerU16(x), indent, info),
        ParsedData::Percent(x) => one(ParserCard::Percent(x), indent, info),
        ParsedData::Permill(x) => one(ParserCard::Permill(x), indent, info),
        ParsedData::Perbill(x) => one(ParserCard::Perbill(x), indent, info),
        ParsedData::Perquintill(x) => one(ParserCard::Perquintill(x), indent, info),
        ParsedData::PrimitiveBool(x) => one(ParserCard::PrimitiveBool(x), indent, info),
        ParsedData::PrimitiveChar(x) => one(ParserCard::PrimitiveChar(x), indent, info),
        ParsedData::PrimitiveI8(x) => one(ParserCard::PrimitiveI8(x), indent, info),
        ParsedData::PrimitiveI16(x) => one(ParserCard::PrimitiveI16(x), indent, info),
        ParsedData::PrimitiveI32(x) => one(ParserCard::PrimitiveI32(x), indent, info),
        ParsedData::PrimitiveI64(x) => one(ParserCard::PrimitiveI64(x), indent, info),
        ParsedData::PrimitiveI128(x) => one(ParserCard::PrimitiveI128(x), indent, info),
        ParsedData::PrimitiveI256(x) => one(ParserCard::PrimitiveI256(x), indent, info),
        ParsedData::PrimitiveU256(x) => one(ParserCard::PrimitiveU256(x), indent, info),
        ParsedData::SignatureEd25519(x) => one(ParserCard::SignatureEd25519(x), indent, info),
        ParsedData::SignatureSr25519(x) => one(ParserCard::SignatureSr25519(x), indent, info),
        ParsedData::SignatureEcdsa(x) => one(ParserCard::SignatureEcdsa(x), indent, info),
        ParsedData::PrimitiveU8 { value, specialty } => seq![Wanted { card: number_card(ParserCard::PrimitiveU8(value), value as nat, specialty, bal, name), indent, info }],
        ParsedData::PrimitiveU16 { value, specialty } => seq![Wanted { card: number_card(ParserCard::PrimitiveU16(value), value as nat, specialty, bal, name), indent, info }],
        ParsedData::PrimitiveU32 { value, specialty } => seq![Wanted { card: number_card(ParserCard::PrimitiveU32(value), value as nat, specialty, bal, name), indent, info }],
        ParsedData::PrimitiveU64 { value, specialty } => seq![Wanted { card: number_card(ParserCard::PrimitiveU64(value), value as nat, specialty, bal, name), indent, info }],
        ParsedData::PrimitiveU128 { value, specialty } => seq![Wanted { card: number_card(ParserCard::PrimitiveU128(value), value as nat, specialty, bal, name), indent, info }],
        ParsedData::Id(x) => one(ParserCard::Id(id_of(x, sp.base58prefix)), indent, info),
        ParsedData::PublicEd25519(x) => one(ParserCard::PublicEd25519(id_of(x, sp.base58prefix)), indent, info),
        ParsedData::PublicSr25519(x) => one(ParserCard::PublicSr25519(id_of(x, sp.base58prefix)), indent, info),
        ParsedData::PublicEcdsa(x) => one(ParserCard::PublicEcdsa(id_of(x, sp.base58prefix)), indent, info),
        ParsedData::Text { text, specialty } => one(match specialty { SpecialtyStr::SpecName => ParserCard::SpecName(text), SpecialtyStr::None => ParserCard::Text(text) }, indent, info),
        ParsedData::EmptyEnum => one(ParserCard::EmptyEnum, indent, info),
        ParsedData::Sequence(s) => wanted_seq(s, info, indent),
        ParsedData::SequenceRaw(s) => announced(s.data@.len(), s.element_info@, indent, info) + wanted_elements(s.data, s.data@.len(), indent + 1, bal, sp, name),
        ParsedData::Tuple(v) => if v@.len() == 0 { Seq::empty() } else { one(ParserCard::TupleAnnounced(v@.len() as usize), indent, info) + wanted_items(v, v@.len(), indent + 1, bal, sp, name) },
        ParsedData::Composite(v) => if v@.len() == 0 { Seq::empty() }
            else if v@.len() == 1 && v@[0].field_name is None { wanted(v@[0].data.data, single_info(info, v@[0]), indent, bal, sp, name) }
            else { one(ParserCard::CompositeAnnounced(v@.len() as usize), indent, info) + wanted_members(v, v@.len(), indent + 1, bal, sp, name) },
        ParsedData::Variant(x) => one(ParserCard::EnumAnnounced, indent, info) + one(ParserCard::EnumVariantName(x.variant_name), indent + 1, docs_only(x.variant_docs@))
            + (if x.fields@.len() == 1 && x.fields@[0].field_name is None { wanted(x.fields@[0].data.data, single_info(Seq::empty(), x.fields@[0]), indent + 2, bal, sp, name) }
            else { wanted_members(x.fields, x.fields@.len(), indent + 2, bal, sp, name) }),
        ParsedData::Call(c) => wanted_pallet(c.0, PalletSpecificItem::Call, indent, sp, name),
        ParsedData::Event(c) => wanted_pallet(c.0, PalletSpecificItem::Event, indent, sp, name),
    }
}
pub open spec fn wanted_pallet(x: PalletSpecificData, item: PalletSpecificItem, indent: int, sp: ShortSpecs, name: Seq<char>) -> Seq<Wanted>
    decreases x
{
    one(ParserCard::PalletName(x.pallet_name), indent, seq![flat(x.pallet_info)])
        + one(match item { PalletSpecificItem::Call => ParserCard::CallName(x.variant_name), PalletSpecificItem::Event => ParserCard::EventName(x.variant_name) }, indent + 1, docs_only(x.variant_docs@))
        + (if x.fields@.len() == 1 && x.fields@[0].field_name is None { wanted(x.fields@[0].data.data, single_info(Seq::empty(), x.fields@[0]), indent + 2, holds_currency(x.pallet_name@), sp, name) }
        else { wanted_members(x.fields, x.fields@.len(), indent + 2, holds_currency(x.pallet_name@), sp, name) })
}
/// information shown with a lone member without a name
pub open spec fn single_info(info: Seq<InfoFlat>, f: FieldData) -> Seq<InfoFlat> { info + docs_only(f.field_docs@) + flats(f.data.info@) }
pub open spec fn wanted_elements(v: Vec<ParsedData>, n: nat, indent: int, bal: bool, sp: ShortSpecs, name: Seq<char>) -> Seq<Wanted>
    decreases v, n
{ if n == 0 || n > v@.len() { Seq::empty() } else { wanted_elements(v, (n - 1) as nat, indent, bal, sp, name) + wanted(v@[n - 1], Seq::empty(), indent, bal, sp, name) } }
pub open spec fn wanted_items(v: Vec<ExtendedData>, n: nat, indent: int, bal: bool, sp: ShortSpecs, name: Seq<char>) -> Seq<Wanted>
    decreases v, n
{ if n == 0 || n > v@.len() { Seq::empty() } else { wanted_items(v, (n - 1) as nat, indent, bal, sp, name) + wanted(v@[n - 1].data, flats(v@[n - 1].info@), indent, bal, sp, name) } }
pub open spec fn wanted_members(v: Vec<FieldData>, n: nat, indent: int, bal: bool, sp: ShortSpecs, name: Seq<char>) -> Seq<Wanted>
    decreases v, n
{
    if n == 0 || n > v@.len() { Seq::empty() } else {
        wanted_members(v, (n - 1) as nat, indent, bal, sp, name)
            + one(match v@[n - 1].field_name { Some(a) => ParserCard::FieldName(a), None => ParserCard::FieldNumber(n as usize) }, indent, docs_only(v@[n - 1].field_docs@))
            + wanted(v@[n - 1].data.data, flats(v@[n - 1].data.info@), indent + 1, bal, sp, name)
    }
}
/// how far below the indentation it is shown at the cards of a value may lie
pub open spec fn deep(d: ParsedData) -> nat
    decreases d
{
    match d {
        ParsedData::Sequence(_) => 1,
        ParsedData::SequenceRaw(s) => 1 + deep_elements(s.data, s.data@.len()),
        ParsedData::Tuple(v) => 1 + deep_items(v, v@.len()),
        ParsedData::Composite(v) => if v@.len() == 1 && v@[0].field_name is None { deep(v@[0].data.data) } else { 1 + deep_members(v, v@.len()) },
        ParsedData::Variant(x) => 2 + if x.fields@.len() == 1 && x.fields@[0].field_name is None { deep(x.fields@[0].data.data) } else { deep_members(x.fields, x.fields@.len()) },
        ParsedData::Call(c) => deep_pallet(c.0),
        ParsedData::Event(c) => deep_pallet(c.0),
        _ => 0,
    }
}
pub open spec fn deep_pallet(x: PalletSpecificData) -> nat
    decreases x
{ 2 + if x.fields@.len() == 1 && x.fields@[0].field_name is None { deep(x.fields@[0].data.data) } else { deep_members(x.fields, x.fields@.len()) } }
pub open spec fn deeper(a: nat, b: nat) -> nat { if a > b { a } else { b } }
pub open spec fn deep_elements(v: Vec<ParsedData>, n: nat) -> nat
    decreases v, n
{ if n == 0 || n > v@.len() { 0 } else { deeper(deep_elements(v, (n - 1) as nat), deep(v@[n - 1])) } }
pub open spec fn deep_items(v: Vec<ExtendedData>, n: nat) -> nat
    decreases v, n
{ if n == 0 || n > v@.len() { 0 } else { deeper(deep_items(v, (n - 1) as nat), deep(v@[n - 1].data)) } }
pub open spec fn deep_members(v: Vec<FieldData>, n: nat) -> nat
    decreases v, n
{ if n == 0 || n > v@.len() { 0 } else { deeper(deep_members(v, (n - 1) as nat), 1 + deep(v@[n - 1].data.data)) } }
pub open spec fn size(d: ParsedData) -> nat
    decreases d
{
    match d {
        ParsedData::SequenceRaw(s) => 1 + size_elements(s.data, s.data@.len()),
        ParsedData::Tuple(v) => 1 + size_items(v, v@.len()),
        ParsedData::Composite(v) => 1 + size_members(v, v@.len()),
        ParsedData::Variant(x) => 1 + size_members(x.fields, x.fields@.len()),
        ParsedData::Call(c) => 1 + size_pallet(c.0),
        ParsedData::Event(c) => 1 + size_pallet(c.0),
        _ => 0,
    }
}
pub open spec fn size_pallet(x: PalletSpecificData) -> nat
    decreases x
{ 1 + size_members(x.fields, x.fields@.len()) }
pub open spec fn size_elements(v: Vec<ParsedData>, n: nat) -> nat
    decreases v, n
{ if n == 0 || n > v@.len() { 0 } else { size_elements(v, (n - 1) as nat) + size(v@[n - 1]) + 1 } }
pub open spec fn size_items(v: Vec<ExtendedData>, n: nat) -> nat
    decreases v, n
{ if n == 0 || n > v@.len() { 0 } else { size_items(v, (n - 1) as nat) + size(v@[n - 1].data) + 1 } }
pub open spec fn size_members(v: Vec<FieldData>, n: nat) -> nat
    decreases v, n
{ if n == 0 || n > v@.len() { 0 } else { size_members(v, (n - 1) as nat) + size(v@[n - 1].data.data) + 1 } }
pub proof fn lemma_elements(v: Vec<ParsedData>, n: nat, i: int)
    requires 0 <= i < n <= v@.len()
    ensures size(v@[i]) < size_elements(v, n), deep(v@[i]) <= deep_elements(v, n)
    decreases n
{ if i < n - 1 { lemma_elements(v, (n - 1) as nat, i); } }
pub proof fn lemma_items(v: Vec<ExtendedData>, n: nat, i: int)
    requires 0 <= i < n <= v@.len()
    ensures size(v@[i].data) < size_items(v, n), deep(v@[i].data) <= deep_items(v, n)
    decreases n
{ if i < n - 1 { lemma_items(v, (n - 1) as nat, i); } }
pub proof fn lemma_members(v: Vec<FieldData>, n: nat, i: int)
    requires 0 <= i < n <= v@.len()
    ensures size(v@[i].data.data) < size_members(v, n), 1 + deep(v@[i].data.data) <= deep_members(v, n)
    decreases n
{ if i < n - 1 { lemma_members(v, (n - 1) as nat, i); } }
pub proof fn lemma_fit(a: Seq<ExtendedCard>, w: Seq<Wanted>, c: Seq<ExtendedCard>, x: Seq<Wanted>, sp: ShortSpecs)
    requires all_fit(a, w, sp), all_fit(c, x, sp)
    ensures all_fit(a + c, w + x, sp)
{}
pub proof fn lemma_push(a: Seq<ExtendedCard>, w: Seq<Wanted>, c: ExtendedCard, x: Wanted)
    ensures forall|sp: ShortSpecs| all_fit(a, w, sp) && fits(c, x, sp) ==> #[trigger] all_fit(a.push(c), w.push(x), sp)
{}
pub proof fn lemma_more(a: Seq<ExtendedCard>, w: Seq<Wanted>, x: Seq<Wanted>, sp: ShortSpecs)
    requires all_fit(a, w, sp)
    ensures forall|c: Seq<ExtendedCard>| #[trigger] all_fit(c, x, sp) ==> all_fit(a + c, w + x, sp)
{}
pub proof fn lemma_tail(n: int, w: Seq<Wanted>, x: Seq<Wanted>, sp: ShortSpecs)
    requires n == w.len()
    ensures forall|c: Seq<ExtendedCard>| all_fit(c.take(n), w, sp) && n <= c.len() && #[trigger] all_fit(c.skip(n), x, sp) ==> all_fit(c, w + x, sp)
{
    assert forall|c: Seq<ExtendedCard>| all_fit(c.take(n), w, sp) && n <= c.len() && #[trigger] all_fit(c.skip(n), x, sp) implies all_fit(c, w + x, sp) by {
        assert(c =~= c.take(n) + c.skip(n));
        lemma_fit(c.take(n), w, c.skip(n), x, sp);
    }
}
/// `s.iter().map(|x| x.flatten()).collect()`
pub fn vx_flatten_all(s: &[Info]) -> (r: Vec<InfoFlat>)
    ensures r@ == flats(s@)
{
    let mut r: Vec<InfoFlat> = Vec::new();
    let mut i: usize = 0;
    while i < s.len()
        invariant i <= s@.len(), r@ =~= flats(s@).take(i as int)
        decreases s@.len() - i
    {
        r.push(s[i].flatten());
        i = i + 1;
    }
    proof { assert(flats(s@).take(s@.len() as int) =~= flats(s@)); }
    r
}
== fn Info::from_ty
-- spec
        ensures r == info_of(*ty)
== fn Info::is_empty
-- spec
        ensures r == info_empty(*self)
-- rewrite `self.docs.is_empty()` => `vx_string_is_empty(&self.docs)`
== trait Documented
    spec fn doc_lines(&self) -> Seq<String>;
== fn Documented::collect_docs
-- spec
        ensures r == docs_of(self.doc_lines())
== fn * as Documented::collect_docs
-- rewrite `self.docs.join($s)` => `vx_join(&self.docs, $s)`
-- start
    proof { broadcast use axiom_string_bc; }
== impl Type<PortableForm> as Documented
    open spec fn doc_lines(&self) -> Seq<String> { self.docs@ }
== impl Field<PortableForm> as Documented
    open spec fn doc_lines(&self) -> Seq<String> { self.docs@ }
== impl Variant<PortableForm> as Documented
    open spec fn doc_lines(&self) -> Seq<String> { self.docs@ }
== impl StorageEntryMetadata<PortableForm> as Documented
    open spec fn doc_lines(&self) -> Seq<String> { self.docs@ }
== fn seq_u16
-- spec
        requires indent < u32::MAX
        ensures forall|sp: ShortSpecs| #[trigger] all_fit(r@, one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u16(set@, indent + 1), sp)
-- start
    proof {
        assert(one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u16(set@.take(0), indent + 1) =~= one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@));
        assert(set@.take(set@.len() as int) =~= set@);
    }
-- loop 1
    invariant
        __s1@ == set@, __i1 <= __s1@.len(), indent < u32::MAX,
        forall|sp: ShortSpecs| #[trigger] all_fit(out@, one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u16(set@.take(__i1 as int), indent + 1), sp),
    decreases __s1@.len() - __i1
-- loop 1 start
    let ghost __o = out@;
-- loop 1 end
    proof {
        let w = one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@);
        let x = Wanted { card: CardIs::Same(ParserCard::PrimitiveU16(set@[__i1 - 1])), indent: indent + 1, info: Seq::empty() };
        assert(w + each_u16(set@.take(__i1 as int), indent + 1) =~= (w + each_u16(set@.take(__i1 - 1), indent + 1)).push(x));
        assert(out@ =~= __o.push(out@.last()));
        lemma_push(__o, w + each_u16(set@.take(__i1 - 1), indent + 1), out@.last(), x);
    }
== fn seq_u32
-- spec
        requires indent < u32::MAX
        ensures forall|sp: ShortSpecs| #[trigger] all_fit(r@, one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u32(set@, indent + 1), sp)
-- start
    proof {
        assert(one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u32(set@.take(0), indent + 1) =~= one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@));
        assert(set@.take(set@.len() as int) =~= set@);
    }
-- loop 1
    invariant
        __s1@ == set@, __i1 <= __s1@.len(), indent < u32::MAX,
        forall|sp: ShortSpecs| #[trigger] all_fit(out@, one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u32(set@.take(__i1 as int), indent + 1), sp),
    decreases __s1@.len() - __i1
-- loop 1 start
    let ghost __o = out@;
-- loop 1 end
    proof {
        let w = one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@);
        let x = Wanted { card: CardIs::Same(ParserCard::PrimitiveU32(set@[__i1 - 1])), indent: indent + 1, info: Seq::empty() };
        assert(w + each_u32(set@.take(__i1 as int), indent + 1) =~= (w + each_u32(set@.take(__i1 - 1), indent + 1)).push(x));
        assert(out@ =~= __o.push(out@.last()));
        lemma_push(__o, w + each_u32(set@.take(__i1 - 1), indent + 1), out@.last(), x);
    }
== fn seq_u64
-- spec
        requires indent < u32::MAX
        ensures forall|sp: ShortSpecs| #[trigger] all_fit(r@, one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u64(set@, indent + 1), sp)
-- start
    proof {
        assert(one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u64(set@.take(0), indent + 1) =~= one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@));
        assert(set@.take(set@.len() as int) =~= set@);
    }
-- loop 1
    invariant
        __s1@ == set@, __i1 <= __s1@.len(), indent < u32::MAX,
        forall|sp: ShortSpecs| #[trigger] all_fit(out@, one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u64(set@.take(__i1 as int), indent + 1), sp),
    decreases __s1@.len() - __i1
-- loop 1 start
    let ghost __o = out@;
-- loop 1 end
    proof {
        let w = one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@);
        let x = Wanted { card: CardIs::Same(ParserCard::PrimitiveU64(set@[__i1 - 1])), indent: indent + 1, info: Seq::empty() };
        assert(w + each_u64(set@.take(__i1 as int), indent + 1) =~= (w + each_u64(set@.take(__i1 - 1), indent + 1)).push(x));
        assert(out@ =~= __o.push(out@.last()));
        lemma_push(__o, w + each_u64(set@.take(__i1 - 1), indent + 1), out@.last(), x);
    }
== fn seq_u128
-- spec
        requires indent < u32::MAX
        ensures forall|sp: ShortSpecs| #[trigger] all_fit(r@, one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u128(set@, indent + 1), sp)
-- start
    proof {
        assert(one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u128(set@.take(0), indent + 1) =~= one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@));
        assert(set@.take(set@.len() as int) =~= set@);
    }
-- loop 1
    invariant
        __s1@ == set@, __i1 <= __s1@.len(), indent < u32::MAX,
        forall|sp: ShortSpecs| #[trigger] all_fit(out@, one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_u128(set@.take(__i1 as int), indent + 1), sp),
    decreases __s1@.len() - __i1
-- loop 1 start
    let ghost __o = out@;
-- loop 1 end
    proof {
        let w = one(ParserCard::SequenceAnnounced { len: set@.len() as usize, element_info_flat }, indent as int, info_flat@);
        let x = Wanted { card: CardIs::Same(ParserCard::PrimitiveU128(set@[__i1 - 1])), indent: indent + 1, info: Seq::empty() };
        assert(w + each_u128(set@.take(__i1 as int), indent + 1) =~= (w + each_u128(set@.take(__i1 - 1), indent + 1)).push(x));
        assert(out@ =~= __o.push(out@.last()));
        lemma_push(__o, w + each_u128(set@.take(__i1 - 1), indent + 1), out@.last(), x);
    }
== fn Info::flatten
-- spec
        ensures r == flat(*self)
-- rewrite `self.docs.is_empty()` => `vx_string_is_empty(&self.docs)`
-- rewrite `self.path.segments.join($s)` => `vx_join(&self.path.segments, $s)`
-- start
    proof { broadcast use axiom_string_bc; }
== fn PalletSpecificData::is_balance_display
-- spec
        ensures r == holds_currency(self.pallet_name@)
== fn PalletSpecificData::card
-- spec
        requires indent + deep_pallet(*self) <= u32::MAX
        ensures all_fit(r@, wanted_pallet(*self, item, indent as int, *short_specs, spec_name@), *short_specs)
        decreases size_pallet(*self), 0nat
-- start
    proof {
        broadcast use axiom_vec_bc, axiom_string_bc;
        let w = one(ParserCard::PalletName(self.pallet_name), indent as int, seq![flat(self.pallet_info)])
            + one(match item { PalletSpecificItem::Call => ParserCard::CallName(self.variant_name), PalletSpecificItem::Event => ParserCard::EventName(self.variant_name) }, indent + 1, docs_only(self.variant_docs@));
        if self.fields@.len() > 0 {
            lemma_members(self.fields, self.fields@.len(), 0);
            lemma_tail(2, w, wanted(self.fields@[0].data.data, single_info(Seq::empty(), self.fields@[0]), indent + 2, holds_currency(self.pallet_name@), *short_specs, spec_name@), *short_specs);
        }
        lemma_tail(2, w, wanted_members(self.fields, self.fields@.len(), indent + 2, holds_currency(self.pallet_name@), *short_specs, spec_name@), *short_specs);
    }
== fn Call::card
-- spec
        requires indent + deep_pallet(self.0) <= u32::MAX
        ensures all_fit(r@, wanted_pallet(self.0, PalletSpecificItem::Call, indent as int, *short_specs, spec_name@), *short_specs)
        decreases size_pallet(self.0), 1nat
== fn Event::card
-- spec
        requires indent + deep_pallet(self.0) <= u32::MAX
        ensures all_fit(r@, wanted_pallet(self.0, PalletSpecificItem::Event, indent as int, *short_specs, spec_name@), *short_specs)
        decreases size_pallet(self.0), 1nat
== fn info_with_docs_only
-- spec
        ensures r@ == docs_only(docs@)
-- rewrite `docs.is_empty()` => `vx_str_is(docs, "")` ?
-- start
    proof { broadcast use axiom_string_bc; reveal_strlit(""); assert(docs@.len() == 0 ==> docs@ =~= ""@); }
== fn card_unnamed_single_field
-- spec
        requires indent + deep(field_data.data.data) <= u32::MAX
        ensures final(out)@.len() >= old(out)@.len(), final(out)@.take(old(out)@.len() as int) == old(out)@,
            all_fit(final(out)@.skip(old(out)@.len() as int), wanted(field_data.data.data, single_info(new_info_flat@, *field_data), indent as int, display_balance, *short_specs, spec_name@), *short_specs)
        decreases size(field_data.data.data), 2nat
-- rewrite `field_data.field_docs.is_empty()` => `vx_string_is_empty(&field_data.field_docs)` ?
-- rewrite `field_data.data.info.iter().map(|x| x.flatten()).collect()` => `vx_flatten_all(&field_data.data.info)` ?
-- rewrite `new_info_flat.extend_from_slice($x)` => `vx_extend(&mut new_info_flat, $x)` ?
-- rewrite `out.extend_from_slice($x)` => `vx_extend(out, $x)` ?
-- start
    proof {
        broadcast use axiom_string_bc;
        assert(new_info_flat@ + docs_only(field_data.field_docs@) =~= if field_data.field_docs@.len() == 0 { new_info_flat@ } else { new_info_flat@.push(InfoFlat { docs: Some(field_data.field_docs), path_flat: None }) });
        assert forall|c: Seq<ExtendedCard>| (#[trigger] (out@ + c)).skip(out@.len() as int) == c by { assert((out@ + c).skip(out@.len() as int) =~= c); }
    }
== fn card_field_set
-- spec
        requires indent + deep_members(vec_of(fields@), fields@.len()) <= u32::MAX
        ensures final(out)@.len() >= old(out)@.len(), final(out)@.take(old(out)@.len() as int) == old(out)@,
            all_fit(final(out)@.skip(old(out)@.len() as int), wanted_members(vec_of(fields@), fields@.len(), indent as int, display_balance, *short_specs, spec_name@), *short_specs)
        decreases size_members(vec_of(fields@), fields@.len()), 0nat
-- rewrite `out.extend_from_slice($x)` => `vx_extend(out, $x)` ?
-- loop 1
    invariant
        __s1@ == fields@, __i1 <= __s1@.len(),
        out@.len() >= old(out)@.len(), out@.take(old(out)@.len() as int) == old(out)@,
        all_fit(out@.skip(old(out)@.len() as int), wanted_members(vec_of(fields@), __i1 as nat, indent as int, display_balance, *short_specs, spec_name@), *short_specs),
        indent + deep_members(vec_of(fields@), fields@.len()) <= u32::MAX,
    decreases __s1@.len() - __i1
-- loop 1 start
    let ghost __o = out@;
    proof {
        broadcast use axiom_vec_bc, axiom_string_bc;
        assert(fields@.len() <= usize::MAX) by { assert(fields@.len() == __s1.len()); }
        axiom_vec_of(fields@);
        lemma_members(vec_of(fields@), fields@.len(), __i1 as int);
    }
-- loop 1 end
    proof {
        let f = fields@[__i1 - 1];
        let k = old(out)@.len() as int;
        let w = wanted_members(vec_of(fields@), (__i1 - 1) as nat, indent as int, display_balance, *short_specs, spec_name@);
        let x = one(match f.field_name { Some(a) => ParserCard::FieldName(a), None => ParserCard::FieldNumber(__i1) }, indent as int, docs_only(f.field_docs@));
        let y = wanted(f.data.data, flats(f.data.info@), indent + 1, display_balance, *short_specs, spec_name@);
        assert(wanted_members(vec_of(fields@), __i1 as nat, indent as int, display_balance, *short_specs, spec_name@) == w + x + y);
        assert(__o.skip(k).push(out@[__o.len() as int]) =~= out@.skip(k).take((w.len() + 1) as int));
        assert(fits(out@[__o.len() as int], x[0], *short_specs));
        assert forall|i: int| 0 <= i < out@.len() - k implies fits(#[trigger] out@.skip(k)[i], (w + x + y)[i], *short_specs) by {
            if i < w.len() { assert(out@.skip(k)[i] == __o.skip(k)[i]); }
            else if i > w.len() {}
        }
    }
== fn ExtendedData::card
-- spec
        requires indent + deep(self.data) <= u32::MAX
        ensures all_fit(r@, wanted(self.data, flats(self.info@), indent as int, display_balance, *short_specs, spec_name@), *short_specs)
        decreases size(self.data), 1nat
-- rewrite `self.info.iter().map(|x| x.flatten()).collect()` => `vx_flatten_all(&self.info)` ?
== fn ParsedData::card
-- spec
        requires indent + deep(*self) <= u32::MAX
        ensures all_fit(r@, wanted(*self, info_flat@, indent as int, display_balance, *short_specs, spec_name@), *short_specs)
        decreases size(*self), 0nat
-- attr #[verifier::rlimit(200)] #[verifier::spinoff_prover]
-- rewrite `sequence.element_info.iter().map(|x| x.flatten()).collect()` => `vx_flatten_all(&sequence.element_info)` ?
-- rewrite `sequence_raw.element_info.iter().map(|x| x.flatten()).collect()` => `vx_flatten_all(&sequence_raw.element_info)` ?
-- rewrite `inner_element_info.iter().map(|x| x.flatten()).collect()` => `vx_flatten_all(inner_element_info)` ?
-- rewrite `out.extend_from_slice($x)` => `vx_extend(&mut out, $x)` ?
-- rewrite `String::from_utf8($x)` => `vx_utf8($x)` ?
-- rewrite `hex::encode($x)` => `vx_hex($x)` ?
-- start
    proof { broadcast use axiom_string_bc, axiom_vec_bc; }
    match self {
        ParsedData::Composite(v) => { proof {
            if v@.len() > 0 {
                lemma_members(*v, v@.len(), 0);
                let x = wanted(v@[0].data.data, single_info(info_flat@, v@[0]), indent as int, display_balance, *short_specs, spec_name@);
                lemma_tail(0, Seq::empty(), x, *short_specs);
                assert(Seq::<Wanted>::empty() + x =~= x);
            }
            lemma_tail(1, one(ParserCard::CompositeAnnounced(v@.len() as usize), indent as int, info_flat@), wanted_members(*v, v@.len(), indent + 1, display_balance, *short_specs, spec_name@), *short_specs);
        } }
        ParsedData::Variant(x) => { proof {
            let w = one(ParserCard::EnumAnnounced, indent as int, info_flat@) + one(ParserCard::EnumVariantName(x.variant_name), indent + 1, docs_only(x.variant_docs@));
            if x.fields@.len() > 0 {
                lemma_members(x.fields, x.fields@.len(), 0);
                lemma_tail(2, w, wanted(x.fields@[0].data.data, single_info(Seq::empty(), x.fields@[0]), indent + 2, display_balance, *short_specs, spec_name@), *short_specs);
            }
            lemma_tail(2, w, wanted_members(x.fields, x.fields@.len(), indent + 2, display_balance, *short_specs, spec_name@), *short_specs);
        } }
        _ => {}
    }
-- loop 1
    invariant
        __s1@ == sequence@, __i1 <= __s1@.len(), indent < u32::MAX,
        inner_element_info_flat@ == flats(inner_element_info@),
        all_fit(out@, one(ParserCard::SequenceAnnounced { len: sequence@.len() as usize, element_info_flat }, indent as int, info_flat@) + each_bytes(sequence@.take(__i1 as int), inner_element_info@, indent + 1), *short_specs),
    decreases __s1@.len() - __i1
-- loop 1 start
    proof {
        broadcast use axiom_string_bc, axiom_vec_bc;
        let w = one(ParserCard::SequenceAnnounced { len: sequence@.len() as usize, element_info_flat }, indent as int, info_flat@);
        assert(w + each_bytes(sequence@.take(__i1 + 1), inner_element_info@, indent + 1) =~= (w + each_bytes(sequence@.take(__i1 as int), inner_element_info@, indent + 1)).push(Wanted { card: CardIs::Same(bytes_card(sequence@[__i1 as int]@, inner_element_info@)), indent: indent + 1, info: Seq::empty() }));
        assert(sequence@.take(sequence@.len() as int) =~= sequence@);
    }
-- loop 2
    invariant
        __s2@ == sequence_raw.data@, __i2 <= __s2@.len(), *self == ParsedData::SequenceRaw(*sequence_raw),
        indent + deep(*self) <= u32::MAX,
        all_fit(out@, announced(sequence_raw.data@.len(), sequence_raw.element_info@, indent as int, info_flat@) + wanted_elements(sequence_raw.data, __i2 as nat, indent + 1, display_balance, *short_specs, spec_name@), *short_specs),
    decreases __s2@.len() - __i2
-- loop 2 start
    let ghost __o = out@;
    proof {
        lemma_elements(sequence_raw.data, sequence_raw.data@.len(), __i2 as int);
        let a = announced(sequence_raw.data@.len(), sequence_raw.element_info@, indent as int, info_flat@);
        let b = wanted_elements(sequence_raw.data, __i2 as nat, indent + 1, display_balance, *short_specs, spec_name@);
        let c = wanted(sequence_raw.data@[__i2 as int], Seq::empty(), indent + 1, display_balance, *short_specs, spec_name@);
        assert(a + (b + c) =~= (a + b) + c);
        assert(wanted_elements(sequence_raw.data, (__i2 + 1) as nat, indent + 1, display_balance, *short_specs, spec_name@) == b + c);
    }
-- loop 3
    invariant
        __s3@ == extended_data_set@, __i3 <= __s3@.len(), *self == ParsedData::Tuple(*extended_data_set),
        indent + deep(*self) <= u32::MAX,
        all_fit(out@, one(ParserCard::TupleAnnounced(extended_data_set@.len() as usize), indent as int, info_flat@) + wanted_items(*extended_data_set, __i3 as nat, indent + 1, display_balance, *short_specs, spec_name@), *short_specs),
    decreases __s3@.len() - __i3
-- loop 3 start
    proof {
        lemma_items(*extended_data_set, extended_data_set@.len(), __i3 as int);
        let a = one(ParserCard::TupleAnnounced(extended_data_set@.len() as usize), indent as int, info_flat@);
        let b = wanted_items(*extended_data_set, __i3 as nat, indent + 1, display_balance, *short_specs, spec_name@);
        let c = wanted(extended_data_set@[__i3 as int].data, flats(extended_data_set@[__i3 as int].info@), indent + 1, display_balance, *short_specs, spec_name@);
        assert(a + (b + c) =~= (a + b) + c);
        assert(wanted_items(*extended_data_set, (__i3 + 1) as nat, indent + 1, display_balance, *short_specs, spec_name@) == b + c);
    }
== fn IdData::from_account_id32
-- spec
        ensures r == id_of(*value, base58prefix)
-- rewrite `value.to_base58_string($p)` => `vx_base58(value, $p)`
-- rewrite `generate_png_scaled_default(value.0.as_ref())` => `vx_identicon(value)`
-- start
    proof { broadcast use axiom_string_bc, axiom_vec_bc; }
== fn IdData::from_public_ed25519
-- spec
        ensures r == id_of(*value, base58prefix)
-- rewrite `value.to_base58_string($p)` => `vx_base58(value, $p)`
-- rewrite `generate_png_scaled_default(value.0.as_ref())` => `vx_identicon(value)`
-- start
    proof { broadcast use axiom_string_bc, axiom_vec_bc; }
== fn IdData::from_public_sr25519
-- spec
        ensures r == id_of(*value, base58prefix)
-- rewrite `value.to_base58_string($p)` => `vx_base58(value, $p)`
-- rewrite `generate_png_scaled_default(value.0.as_ref())` => `vx_identicon(value)`
-- start
    proof { broadcast use axiom_string_bc, axiom_vec_bc; }
== fn IdData::from_public_ecdsa
-- spec
        ensures r == id_of(*value, base58prefix)
-- rewrite `value.to_base58_string($p)` => `vx_base58(value, $p)`
-- rewrite `generate_png_scaled_default(value.0.as_ref())` => `vx_identicon(value)`
-- start
    proof { broadcast use axiom_string_bc, axiom_vec_bc; }
