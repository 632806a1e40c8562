#![feature(sized_hierarchy)]
#![verifier::allow(undeclared_external_trait)]
#![verifier::allow(autoderive_clone_without_spec)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_snake_case, unused_assignments)]
use vstd::prelude::*;

/// What is assumed of other crates and of the standard library, and helpers the rewrites call.
pub mod vx {
use vstd::prelude::*;
use core::any::TypeId;
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use num_bigint::{BigInt, BigUint};
use parity_scale_codec::{Compact, Decode, DecodeAll, HasCompact};
use primitive_types::{H160, H256, H512};
use scale_info::{
    form::{Form, PortableForm}, interner::UntrackedSymbol, Field, Path, Type, TypeDef, TypeDefArray, TypeDefBitSequence,
    TypeDefCompact, TypeDefComposite, TypeDefPrimitive, TypeDefSequence, TypeDefTuple, TypeDefVariant, TypeParameter, Variant,
};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};
use substrate_crypto_light::{
    common::AccountId32,
    ecdsa::{Public as PublicEcdsa, Signature as SignatureEcdsa},
    ed25519::{Public as PublicEd25519, Signature as SignatureEd25519},
    sr25519::{Public as PublicSr25519, Signature as SignatureSr25519},
};

/// Stand in for the types of `bitvec`, which no verified function looks into.
mod opaque {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct BitVec<T, O>(core::marker::PhantomData<(T, O)>);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Lsb0;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Msb0;
}
impl core::fmt::Display for VxNever { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl core::fmt::Debug for VxMem { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub use opaque::*;

verus! {

// ------------------------------------------------------------------ external types

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    spec fn as_ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T)
        ensures r == self.as_ref_spec();
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(MemSpec via MemSpecImpl)]
pub trait ExExternalMemory: core::fmt::Debug {
    type ExternalTraitSpecificationFor: ExternalMemory;
    type ExternalMemoryError: core::fmt::Debug + core::fmt::Display + Eq + PartialEq;
    /// number of failed accesses so far
    spec fn faults(&self) -> nat;
}
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(E)]
pub struct ExBufferError<E: ExternalMemory>(BufferError<E>);

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(BufSpec via BufSpecImpl)]
pub trait ExAddressableBuffer<E: ExternalMemory>: Sized {
    type ExternalTraitSpecificationFor: AddressableBuffer<E>;
    type ReadBuffer: AsRef<[u8]>;
    spec fn bytes(&self) -> Seq<u8>;
    fn total_len(&self) -> (r: usize)
        ensures r == self.bytes().len(), r <= isize::MAX;
    fn read_slice(&self, ext_memory: &mut E, position: usize, slice_len: usize) -> (r: Result<Self::ReadBuffer, BufferError<E>>)
        requires slice_len <= isize::MAX || position + slice_len <= usize::MAX
        ensures
            self.bytes().len() <= isize::MAX,
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r matches Ok(b) ==> final(ext_memory).faults() == old(ext_memory).faults() && position + slice_len <= self.bytes().len()
                && b.as_ref_spec()@ == self.bytes().subrange(position as int, position + slice_len),
            r is Err && final(ext_memory).faults() == old(ext_memory).faults() ==> position + slice_len > self.bytes().len();
    fn read_byte(&self, ext_memory: &mut E, position: usize) -> (r: Result<u8, BufferError<E>>)
        ensures
            self.bytes().len() <= isize::MAX,
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r matches Ok(b) ==> final(ext_memory).faults() == old(ext_memory).faults() && position < self.bytes().len() && b == self.bytes()[position as int],
            r is Err && final(ext_memory).faults() == old(ext_memory).faults() ==> position >= self.bytes().len();
    fn limit_length(&self, new_len: usize) -> (r: Result<Self, BufferError<E>>)
        ensures
            new_len <= self.bytes().len() <==> r is Ok,
            r matches Ok(b) ==> b.bytes() == self.bytes().take(new_len as int);
}

#[verifier::external_trait_specification]
pub trait ExForm {
    type ExternalTraitSpecificationFor: Form;
    type Type: core::fmt::Debug + Clone + Eq + Ord + scale_info::form::JsonSchemaMaybe;
    type String: AsRef<str> + core::fmt::Debug + Clone + Eq + Ord + scale_info::form::JsonSchemaMaybe;
}
#[verifier::external_trait_specification]
pub trait ExJ {
    type ExternalTraitSpecificationFor: scale_info::form::JsonSchemaMaybe;
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTypeId(TypeId);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPortableForm(PortableForm);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExUntrackedSymbol<T>(UntrackedSymbol<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExField<T: Form>(Field<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExPath<T: Form>(Path<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExType<T: Form>(Type<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExTypeDef<T: Form>(TypeDef<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExTypeParameter<T: Form>(TypeParameter<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct Ex2<T: Form>(TypeDefComposite<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct Ex3<T: Form>(TypeDefVariant<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct Ex4<T: Form>(Variant<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct Ex5<T: Form>(TypeDefSequence<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct Ex6<T: Form>(TypeDefArray<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct Ex7<T: Form>(TypeDefTuple<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct Ex8<T: Form>(TypeDefCompact<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct Ex9<T: Form>(TypeDefBitSequence<T>);
#[verifier::external_type_specification]
pub struct Ex10(TypeDefPrimitive);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(O)]
pub struct ExBitVec<T, O>(BitVec<T, O>);
#[verifier::external_type_specification]
pub struct ExLsb0(Lsb0);
#[verifier::external_type_specification]
pub struct ExMsb0(Msb0);
#[verifier::external_type_specification]
pub struct ExStorageEntryModifier(frame_metadata::v14::StorageEntryModifier);
#[verifier::external_type_specification]
pub struct ExStorageHasher(frame_metadata::v14::StorageHasher);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExStorageEntryType<T: Form>(frame_metadata::v14::StorageEntryType<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct Ex11<T: Form>(frame_metadata::v14::StorageEntryMetadata<T>);
#[verifier::external_type_specification]
pub struct ExPortableType(scale_info::PortableType);
#[verifier::external_type_specification]
pub struct ExPortableRegistry(scale_info::PortableRegistry);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExPalletMetadataV14<T: Form>(frame_metadata::v14::PalletMetadata<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExPalletConstantMetadataV14<T: Form>(frame_metadata::v14::PalletConstantMetadata<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExExtrinsicMetadataV14<T: Form>(frame_metadata::v14::ExtrinsicMetadata<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExSignedExtensionMetadataV14<T: Form>(frame_metadata::v14::SignedExtensionMetadata<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExPalletStorageMetadataV14<T: Form>(frame_metadata::v14::PalletStorageMetadata<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExPalletCallMetadataV14<T: Form>(frame_metadata::v14::PalletCallMetadata<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExPalletEventMetadataV14<T: Form>(frame_metadata::v14::PalletEventMetadata<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExPalletErrorMetadataV14<T: Form>(frame_metadata::v14::PalletErrorMetadata<T>);
#[verifier::external_type_specification]
pub struct ExRuntimeMetadataV14(frame_metadata::v14::RuntimeMetadataV14);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExPalletMetadataV15<T: Form>(frame_metadata::v15::PalletMetadata<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExExtrinsicMetadataV15<T: Form>(frame_metadata::v15::ExtrinsicMetadata<T>);
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExSignedExtensionMetadataV15<T: Form>(frame_metadata::v15::SignedExtensionMetadata<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExRuntimeApiMetadataV15<T: Form>(frame_metadata::v15::RuntimeApiMetadata<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExOuterEnumsV15<T: Form>(frame_metadata::v15::OuterEnums<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExCustomMetadataV15<T: Form>(frame_metadata::v15::CustomMetadata<T>);
#[verifier::external_type_specification]
pub struct ExRuntimeMetadataV15(frame_metadata::v15::RuntimeMetadataV15);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBigInt(BigInt);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBigUint(BigUint);
#[verifier::external_type_specification]
pub struct ExH160(H160);
#[verifier::external_type_specification]
pub struct ExH256(H256);
#[verifier::external_type_specification]
pub struct ExH512(H512);
#[verifier::external_type_specification]
pub struct ExAccountId32(AccountId32);
#[verifier::external_type_specification]
pub struct ExPubEc(PublicEcdsa);
#[verifier::external_type_specification]
pub struct ExPubEd(PublicEd25519);
#[verifier::external_type_specification]
pub struct ExPubSr(PublicSr25519);
#[verifier::external_type_specification]
pub struct ExSigEc(SignatureEcdsa);
#[verifier::external_type_specification]
pub struct ExSigEd(SignatureEd25519);
#[verifier::external_type_specification]
pub struct ExSigSr(SignatureSr25519);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPerU16(PerU16);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPercent(Percent);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPermill(Permill);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPerbill(Perbill);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPerquintill(Perquintill);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCodecError(parity_scale_codec::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(core::array::TryFromSliceError);

// ------------------------------------------------------------------ identity of vectors and texts

/// Vectors are their contents.
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub axiom fn axiom_vec_of<T>(s: Seq<T>)
    requires s.len() <= usize::MAX
    ensures (#[trigger] vec_of(s))@ == s;
pub axiom fn axiom_vec_ext<T>(a: Vec<T>)
    ensures a == #[trigger] vec_of(a@);
/// stands for: a failing read was lost while looking for the call, event or signature pattern
/// (known finding C20-fault-hides-pattern); what may say so calls `pattern_may_be_missed`
pub uninterp spec fn pattern_missed() -> bool;
pub axiom fn pattern_may_be_missed()
    ensures pattern_missed();
/// no read failed on the way
pub open spec fn clean(before: nat, after: nat) -> bool { before == after || pattern_missed() }
pub broadcast proof fn lemma_clean_same(a: nat)
    ensures #[trigger] clean(a, a)
{}
pub broadcast proof fn lemma_clean(a: nat, b: nat, c: nat)
    requires #[trigger] clean(a, b), #[trigger] clean(b, c)
    ensures clean(a, c)
{}
pub uninterp spec fn string_of(s: Seq<char>) -> String;
pub axiom fn axiom_string_ext(a: String)
    ensures a == #[trigger] string_of(a@);

/// texts are their characters
pub broadcast axiom fn axiom_string_bc(a: String)
    ensures a == string_of(#[trigger] a@);
pub broadcast axiom fn axiom_vec_bc<T>(a: Vec<T>)
    ensures a == vec_of(#[trigger] a@);
/// arrays are their contents
pub uninterp spec fn array_of<const N: usize>(s: Seq<u8>) -> [u8; N];
pub broadcast axiom fn axiom_array_bc<const N: usize>(a: [u8; N])
    ensures a == array_of::<N>(#[trigger] a@);
pub axiom fn axiom_array_of<const N: usize>(s: Seq<u8>)
    requires s.len() == N
    ensures (#[trigger] array_of::<N>(s))@ == s;
/// `?` converts with `From::from`.
pub broadcast axiom fn axiom_question_mark<S, T: core::convert::From<S>>(e: S, r: T)
    requires #[trigger] vstd::std_specs::control_flow::spec_from::<T, S>(e, r)
    ensures <T as vstd::std_specs::convert::FromSpec<S>>::obeys_from_spec() ==> r == <T as vstd::std_specs::convert::FromSpec<S>>::from_spec(e);

// ------------------------------------------------------------------ helpers called by rewritten code

/// a == b on texts
#[verifier::external_body]
pub fn vx_str_is(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ == b@)
{ a == b }

pub trait VxClone: Sized {
    fn vx_clone(&self) -> (r: Self) ensures r == *self;
    fn vx_to_owned(&self) -> (r: Self) ensures r == *self;
}
impl<T: Clone> VxClone for T {
    #[verifier::external_body]
    fn vx_clone(&self) -> (r: Self) { self.clone() }
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: Self) { self.clone() }
}
/// hashes are equal if their bytes are; texts are equal if their characters are
pub axiom fn axiom_equality()
    ensures
        <H256 as vstd::std_specs::cmp::PartialEqSpec<H256>>::obeys_eq_spec(),
        forall|a: H256, b: H256| #![trigger <H256 as vstd::std_specs::cmp::PartialEqSpec<H256>>::eq_spec(&a, &b)] <H256 as vstd::std_specs::cmp::PartialEqSpec<H256>>::eq_spec(&a, &b) == (a == b),
        <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec(),
        forall|a: String, b: &str| #![trigger <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(&a, &b)] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@),
        <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(),
        forall|a: String, b: &str| #![trigger <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(&a, b)] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@),
        <[u8; 8] as vstd::std_specs::cmp::PartialEqSpec<[u8; 8]>>::obeys_eq_spec(),
        forall|a: [u8; 8], b: [u8; 8]| #![trigger <[u8; 8] as vstd::std_specs::cmp::PartialEqSpec<[u8; 8]>>::eq_spec(&a, &b)] <[u8; 8] as vstd::std_specs::cmp::PartialEqSpec<[u8; 8]>>::eq_spec(&a, &b) == (a@ == b@),
        <[u8; 16] as vstd::std_specs::cmp::PartialEqSpec<[u8; 16]>>::obeys_eq_spec(),
        forall|a: [u8; 16], b: [u8; 16]| #![trigger <[u8; 16] as vstd::std_specs::cmp::PartialEqSpec<[u8; 16]>>::eq_spec(&a, &b)] <[u8; 16] as vstd::std_specs::cmp::PartialEqSpec<[u8; 16]>>::eq_spec(&a, &b) == (a@ == b@);
/// `to_owned` and `to_string` of a text
pub trait VxOwned {
    fn vx_to_owned(&self) -> (r: String);
}
impl VxOwned for str {
    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String)
        ensures r@ == self@
    { self.to_owned() }
}
pub trait VxToVec<T> {
    spec fn vx_items(&self) -> Seq<T>;
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vx_items();
}
impl<T: Clone> VxToVec<T> for [T] {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) { self.to_vec() }
}
impl<T: Clone> VxToVec<T> for Vec<T> {
    open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) { self.to_vec() }
}
/// `v.iter().cloned().map(T::from).collect()`
pub fn vx_from_all<S: Clone, T: core::convert::From<S>>(v: &Vec<S>) -> (r: Vec<T>)
    ensures
        r@.len() == v@.len(),
        <T as vstd::std_specs::convert::FromSpec<S>>::obeys_from_spec() ==> forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == <T as vstd::std_specs::convert::FromSpec<S>>::from_spec(v@[i])
{
    let mut r: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant
            i <= v@.len(), r@.len() == i,
            <T as vstd::std_specs::convert::FromSpec<S>>::obeys_from_spec() ==> forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == <T as vstd::std_specs::convert::FromSpec<S>>::from_spec(v@[j]),
        decreases v@.len() - i
    { r.push(T::from(v[i].vx_clone())); i = i + 1; }
    r
}
/// a == b for types whose `PartialEq` is derived
#[verifier::external_body]
pub fn vx_eq<T: PartialEq>(a: &T, b: &T) -> (r: bool)
    ensures r == (*a == *b)
{ a == b }

/// `a.contains(&b)` for types whose `PartialEq` is derived or built in
#[verifier::external_body]
pub fn vx_contains<T: PartialEq>(a: &[T], b: &T) -> (r: bool)
    ensures r == a@.contains(*b)
{ a.contains(b) }
/// `a.extend_from_slice(b)`
#[verifier::external_body]
pub fn vx_extend<T: Clone>(a: &mut Vec<T>, b: &[T])
    ensures final(a)@ == old(a)@ + b@
{ a.extend_from_slice(b) }
/// `vec![x]`
pub fn vx_vec1<T>(x: T) -> (r: Vec<T>)
    ensures r@ == seq![x]
{ let mut v = Vec::new(); v.push(x); v }
/// `unreachable!()`
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T)
    requires false
{ unreachable!() }

/// decimal digits of a number
pub uninterp spec fn dec(n: nat) -> Seq<char>;
/// `to_string`, and `{}` in `format!`
pub trait VxShow {
    spec fn shown(&self) -> Seq<char>;
    fn vx_show(&self) -> (r: String) ensures r@ == self.shown();
}
impl VxShow for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_show(&self) -> (r: String) { self.to_string() }
}
impl VxShow for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_show(&self) -> (r: String) { self.to_string() }
}
impl<T: VxShow + ?Sized> VxShow for &T {
    open spec fn shown(&self) -> Seq<char> { (**self).shown() }
    fn vx_show(&self) -> (r: String) { (**self).vx_show() }
}
macro_rules! show_uint { ($($t: ty), *) => { verus! { $(
impl VxShow for $t {
    open spec fn shown(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body]
    fn vx_show(&self) -> (r: String) { self.to_string() }
}
)* } } }
show_uint!(u8, u16, u32, u64, u128, usize);
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String)
    ensures r@ == a@ + b@
{ let mut a = a; a.push_str(&b); a }

pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
/// number that decimal digits denote
pub open spec fn dval(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { 10 * dval(s.drop_last()) + (s.last() as nat - '0' as nat) as nat } }
pub open spec fn p10(n: nat) -> nat
    decreases n
{ if n == 0 { 1 } else { 10 * p10((n - 1) as nat) } }
/// decimal digits of a number are its digits, without leading zeroes
pub axiom fn axiom_dec(n: nat)
    ensures digits(dec(n)), dec(n).len() >= 1, dval(dec(n)) == n, dec(n).len() > 1 ==> dec(n)[0] != '0';

/// `balance.len()` on text without multi-byte characters
#[verifier::external_body]
pub fn vx_ascii_len(a: &str) -> (r: usize)
    requires forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i] as u32) < 128
    ensures r == a@.len()
{ a.len() }
/// `a[..n].to_string()`
#[verifier::external_body]
pub fn vx_ascii_head(a: &str, n: usize) -> (r: String)
    requires forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i] as u32) < 128, n <= a@.len()
    ensures r@ == a@.take(n as int)
{ a[..n].to_string() }
/// `a[n..].to_string()`
#[verifier::external_body]
pub fn vx_ascii_tail(a: &str, n: usize) -> (r: String)
    requires forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i] as u32) < 128, n <= a@.len()
    ensures r@ == a@.skip(n as int)
{ a[n..].to_string() }
/// `a.repeat(n)`
#[verifier::external_body]
pub fn vx_repeat1(a: &str, n: usize) -> (r: String)
    requires a@.len() == 1
    ensures r@ == Seq::new(n as nat, |i: int| a@[0])
{ a.repeat(n) }

#[verifier::external_body]
pub fn vx_try_into<const N: usize>(s: &[u8]) -> (r: Result<[u8; N], core::array::TryFromSliceError>)
    ensures r is Ok <==> s@.len() == N, r matches Ok(a) ==> a@ == s@
{ s.try_into() }

pub uninterp spec fn blake2_128_of(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn twox_64_of(b: Seq<u8>) -> Seq<u8>;
pub assume_specification[sp_crypto_hashing::blake2_128](data: &[u8]) -> (r: [u8; 16])
    ensures r@ == blake2_128_of(data@);
pub assume_specification[sp_crypto_hashing::twox_64](data: &[u8]) -> (r: [u8; 8])
    ensures r@ == twox_64_of(data@);
/// types of a registry: ids are places in it
pub uninterp spec fn portable(r: scale_info::PortableRegistry) -> Map<u32, Type<PortableForm>>;
pub axiom fn axiom_portable(r: scale_info::PortableRegistry, i: u32)
    ensures portable(r).contains_key(i) == (i < r.types@.len()), i < r.types@.len() ==> portable(r)[i] == r.types@[i as int].ty;
pub assume_specification[scale_info::PortableRegistry::resolve](r: &scale_info::PortableRegistry, id: u32) -> (t: Option<&Type<PortableForm>>)
    ensures match t { Some(x) => portable(*r).contains_key(id) && portable(*r)[id] == *x, None => !portable(*r).contains_key(id) };
/// error of memory without faults
#[verifier::external_derive]
#[derive(Debug, PartialEq, Eq)]
pub struct VxNever { }
pub broadcast axiom fn axiom_vec_as_ref(v: Vec<u8>)
    ensures (#[trigger] <Vec<u8> as AsRefSpec<[u8]>>::as_ref_spec(&v))@ == v@;
/// stands in for `()`, memory without faults
pub struct VxMem {}
impl ExternalMemory for VxMem { type ExternalMemoryError = VxNever; }
impl MemSpecImpl for VxMem { open spec fn faults(&self) -> nat { 0 } }
/// stands in for `&[u8]`, bytes in memory
pub struct VxBytes<'a> { pub b: &'a [u8] }
impl<'a> BufSpecImpl<VxMem> for VxBytes<'a> { open spec fn bytes(&self) -> Seq<u8> { self.b@ } }
impl<'a> AddressableBuffer<VxMem> for VxBytes<'a> {
    type ReadBuffer = &'a [u8];
    #[verifier::external_body]
    fn total_len(&self) -> (r: usize) { self.b.len() }
    #[verifier::external_body]
    fn read_slice(&self, ext_memory: &mut VxMem, position: usize, slice_len: usize) -> (r: Result<Self::ReadBuffer, BufferError<VxMem>>) { unreachable!() }
    #[verifier::external_body]
    fn read_byte(&self, ext_memory: &mut VxMem, position: usize) -> (r: Result<u8, BufferError<VxMem>>) { unreachable!() }
    #[verifier::external_body]
    fn limit_length(&self, new_len: usize) -> (r: Result<Self, BufferError<VxMem>>) { unreachable!() }
}
/// type id of a registry symbol
pub uninterp spec fn sym(s: UntrackedSymbol<TypeId>) -> u32;
pub trait VxId {
    spec fn id_spec(&self) -> u32;
    fn vx_id(&self) -> (r: u32) ensures r == self.id_spec();
}
/// `String::from_utf8`
#[verifier::external_body]
pub fn vx_utf8(s: Vec<u8>) -> (r: Result<String, ()>)
    ensures
        r is Ok <==> vstd::utf8::valid_utf8(s@),
        r matches Ok(t) ==> t@ == vstd::utf8::decode_utf8(s@)
{ String::from_utf8(s).map_err(|_| ()) }
impl VxId for UntrackedSymbol<TypeId> {
    open spec fn id_spec(&self) -> u32 { sym(*self) }
    #[verifier::external_body]
    fn vx_id(&self) -> (r: u32) { self.id }
}

// ------------------------------------------------------------------ paths and documentation

pub open spec fn seg_ident(s: Seq<String>) -> Option<String> { if s.len() == 0 { None } else { Some(s.last()) } }
pub open spec fn ident(p: Path<PortableForm>) -> Option<String> { seg_ident(p.segments@) }
pub assume_specification<T: Form>[Path::<T>::ident](p: &Path<T>) -> (r: Option<T::String>)
    ensures r == if p.segments@.len() == 0 { None } else { Some(p.segments@.last()) };
pub assume_specification<T: Form>[Path::<T>::is_empty](p: &Path<T>) -> (r: bool)
    ensures r == (p.segments@.len() == 0);
pub open spec fn names3(s: Seq<String>, a: Seq<char>, b: Seq<char>) -> bool { s.len() == 3 && s[0]@ == a && s[1]@ == b }
/// `p.namespace().iter().map(|x| x.as_str()).collect::<Vec<&str>>().as_ref()`
#[verifier::external_body]
pub fn vx_namespace<'a>(p: &'a Path<PortableForm>) -> (r: Vec<&'a str>)
    ensures
        p.segments@.len() == 0 ==> r@.len() == 0,
        p.segments@.len() > 0 ==> r@.len() == p.segments@.len() - 1 && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == p.segments@[i]@
{ p.namespace().iter().map(|x| x.as_str()).collect::<Vec<&str>>() }

/// lines joined by a separator
pub open spec fn joined(s: Seq<String>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { seq![] } else if s.len() == 1 { s[0]@ } else { joined(s.drop_last(), sep) + sep + s.last()@ } }
#[verifier::external_body]
pub fn vx_join(s: &[String], sep: &str) -> (r: String)
    ensures r@ == joined(s@, sep@)
{ s.join(sep) }
#[verifier::external_body]
pub fn vx_string_is_empty(s: &String) -> (r: bool)
    ensures r == (s@.len() == 0)
{ s.is_empty() }

// ------------------------------------------------------------------ numbers

pub open spec fn pow256(n: nat) -> nat
    decreases n
{ if n == 0 { 1 } else { 256 * pow256((n - 1) as nat) } }

/// little-endian number in the first n bytes
pub open spec fn le(b: Seq<u8>, n: nat) -> nat
    decreases n
{ if n == 0 { 0 } else { le(b, (n - 1) as nat) + b[n - 1] as nat * pow256((n - 1) as nat) } }

pub proof fn lemma_le_prefix(a: Seq<u8>, b: Seq<u8>, n: nat)
    requires forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures le(a, n) == le(b, n)
    decreases n
{ if n > 0 { lemma_le_prefix(a, b, (n - 1) as nat) } }

pub proof fn lemma_pow256_mono(a: nat, b: nat)
    requires a <= b
    ensures 1 <= pow256(a) <= pow256(b)
    decreases b
{
    if b > 0 {
        if a == b { lemma_pow256_mono((a - 1) as nat, (a - 1) as nat) } else { lemma_pow256_mono(a, (b - 1) as nat) }
    }
}

/// signed reading of an unsigned number of n bytes
pub open spec fn signed(v: nat, n: nat) -> int { if v < pow256(n) / 2 { v as int } else { v - pow256(n) } }
pub uninterp spec fn big_uint(n: nat) -> BigUint;
pub uninterp spec fn big_int(n: int) -> BigInt;
#[verifier::external_body]
pub fn vx_big_uint(s: &[u8]) -> (r: BigUint)
    ensures r == big_uint(le(s@, s@.len()))
{ BigUint::from_bytes_le(s) }
#[verifier::external_body]
pub fn vx_big_int(s: &[u8]) -> (r: BigInt)
    ensures r == big_int(signed(le(s@, s@.len()), s@.len()))
{ BigInt::from_signed_bytes_le(s) }
#[verifier::external_body]
pub fn vx_le32(s: [u8; 4]) -> (r: u32)
    ensures r == le(s@, 4)
{ u32::from_le_bytes(s) }
#[verifier::external_body]
pub fn vx_le64(s: [u8; 8]) -> (r: u64)
    ensures r == le(s@, 8)
{ u64::from_le_bytes(s) }
#[verifier::external_body]
pub fn vx_be32(s: [u8; 4]) -> (r: u32)
    ensures r == le(s@.reverse(), 4)
{ u32::from_be_bytes(s) }
#[verifier::external_body]
pub fn vx_to_be64(n: u64) -> (r: [u8; 8])
    ensures le(r@.reverse(), 8) == n
{ n.to_be_bytes() }
/// `&s[..n]`
#[verifier::external_body]
pub fn vx_head(s: &[u8], n: usize) -> (r: &[u8])
    requires n <= s@.len()
    ensures r@ == s@.take(n as int)
{ &s[..n] }
/// `&s[n..]`
#[verifier::external_body]
pub fn vx_tail(s: &[u8], n: usize) -> (r: &[u8])
    requires n <= s@.len()
    ensures r@ == s@.skip(n as int)
{ &s[n..] }
/// character of a Unicode scalar value
pub uninterp spec fn scalar(n: nat) -> char;
pub axiom fn axiom_scalar(n: nat)
    requires n < 0xd800 || 0xe000 <= n <= 0x10ffff
    ensures scalar(n) as u32 == n;
pub open spec fn char_of(n: nat) -> Option<char> { if n < 0xd800 || 0xe000 <= n <= 0x10ffff { Some(scalar(n)) } else { None } }
#[verifier::external_body]
pub fn vx_char(n: u32) -> (r: Option<char>)
    ensures r == char_of(n as nat)
{ char::from_u32(n) }
#[verifier::external_body]
pub fn vx_len_account() -> (r: usize) ensures r == 32 { substrate_crypto_light::common::HASH_256_LEN }
#[verifier::external_body]
pub fn vx_len_public_ecdsa() -> (r: usize) ensures r == 33 { substrate_crypto_light::ecdsa::PUBLIC_LEN }
#[verifier::external_body]
pub fn vx_len_public_ed25519() -> (r: usize) ensures r == 32 { substrate_crypto_light::ed25519::PUBLIC_LEN }
#[verifier::external_body]
pub fn vx_len_public_sr25519() -> (r: usize) ensures r == 32 { substrate_crypto_light::sr25519::PUBLIC_LEN }
#[verifier::external_body]
pub fn vx_len_signature_ecdsa() -> (r: usize) ensures r == 65 { substrate_crypto_light::ecdsa::SIGNATURE_LEN }
#[verifier::external_body]
pub fn vx_len_signature_ed25519() -> (r: usize) ensures r == 64 { substrate_crypto_light::ed25519::SIGNATURE_LEN }
#[verifier::external_body]
pub fn vx_len_signature_sr25519() -> (r: usize) ensures r == 64 { substrate_crypto_light::sr25519::SIGNATURE_LEN }
pub assume_specification[H160::len_bytes]() -> (r: usize) ensures r == 20;
pub assume_specification[H256::len_bytes]() -> (r: usize)
    ensures r == 32;
pub assume_specification[H512::len_bytes]() -> (r: usize) ensures r == 64;

/// SCALE compact number at the start of b: (number, encoded length). Canonical encodings only.
pub open spec fn compact_raw(b: Seq<u8>) -> Option<(nat, nat)> {
    if b.len() == 0 { None } else {
        let m = b[0] % 4;
        if m == 0 { Some(((b[0] / 4) as nat, 1)) }
        else if m == 1 {
            if b.len() >= 2 && le(b, 2) / 4 >= 64 { Some((le(b, 2) / 4, 2)) } else { None }
        } else if m == 2 {
            if b.len() >= 4 && le(b, 4) / 4 >= 0x4000 { Some((le(b, 4) / 4, 4)) } else { None }
        } else {
            let n = (b[0] / 4 + 4) as nat;
            let rest = b.skip(1);
            if b.len() >= n + 1 && le(rest, n) >= 0x4000_0000 && le(rest, n) >= pow256((n - 1) as nat) { Some((le(rest, n), n + 1)) } else { None }
        }
    }
}
/// a number type that can be compact
pub trait VxCompact: Sized {
    /// largest number the type's compact form holds
    spec fn compact_max() -> nat;
    /// value of the type that the compact number stands for
    spec fn from_compact(n: nat) -> Self;
    /// `<Compact<T>>::decode` on a slice
    fn vx_decode_compact(s: &[u8]) -> (r: Result<Compact<Self>, parity_scale_codec::Error>)
        ensures
            r is Ok <==> (compact_raw(s@) matches Some((n, l)) && n <= Self::compact_max()),
            r matches Ok(c) ==> c.0 == Self::from_compact(compact_raw(s@).unwrap().0);
}
/// compact value of type T at the start of b, and its length
pub open spec fn compact_of<T: VxCompact>(b: Seq<u8>) -> Option<(T, nat)> {
    match compact_raw(b) {
        Some((n, l)) => if n <= T::compact_max() { Some((T::from_compact(n), l)) } else { None },
        None => None,
    }
}
pub open spec fn compact_at<T: VxCompact>(b: Seq<u8>, pos: int) -> Option<(T, int)> {
    if 0 <= pos <= b.len() {
        match compact_of::<T>(b.skip(pos)) { Some((v, l)) => Some((v, pos + l)), None => None }
    } else { None }
}
#[verifier::external_type_specification]
#[verifier::reject_recursive_types(T)]
pub struct ExCompact<T>(Compact<T>);
/// Sources that fail only where the data ends.
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(InputSpec via InputSpecImpl)]
pub trait ExInput {
    type ExternalTraitSpecificationFor: parity_scale_codec::Input;
    spec fn rest(&self) -> Seq<u8>;
    fn read_byte(&mut self) -> (r: Result<u8, parity_scale_codec::Error>)
        ensures
            r is Ok <==> old(self).rest().len() >= 1,
            r matches Ok(b) ==> b == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1);
}
impl<'a> InputSpecImpl for &'a [u8] {
    open spec fn rest(&self) -> Seq<u8> { self@ }
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(OutputSpec via OutputSpecImpl)]
pub trait ExOutput {
    type ExternalTraitSpecificationFor: parity_scale_codec::Output;
    spec fn written(&self) -> Seq<u8>;
    fn push_byte(&mut self, byte: u8)
        ensures final(self).written() == old(self).written().push(byte);
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(DecodeSpec via DecodeSpecImpl)]
pub trait ExDecode: Sized {
    type ExternalTraitSpecificationFor: Decode;
    /// value encoded at the start of b, and its length
    spec fn parse(b: Seq<u8>) -> Option<(Self, nat)>;
    fn decode<I: parity_scale_codec::Input>(input: &mut I) -> (r: Result<Self, parity_scale_codec::Error>)
        ensures
            r is Ok <==> Self::parse(old(input).rest()) is Some,
            r matches Ok(v) ==> Self::parse(old(input).rest()) matches Some((w, n)) && v == w && n <= old(input).rest().len()
                && final(input).rest() == old(input).rest().skip(n as int);
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(EncodeSpec via EncodeSpecImpl)]
pub trait ExEncode {
    type ExternalTraitSpecificationFor: parity_scale_codec::Encode;
    spec fn encodable(&self) -> bool;
    spec fn coded(&self) -> Seq<u8>;
    fn encode_to<T: parity_scale_codec::Output + ?Sized>(&self, dest: &mut T)
        requires self.encodable()
        ensures final(dest).written() == old(dest).written() + self.coded();
}
impl EncodeSpecImpl for u16 {
    open spec fn encodable(&self) -> bool { true }
    open spec fn coded(&self) -> Seq<u8> { seq![(*self % 256) as u8, (*self / 256) as u8] }
}
macro_rules! parse_uint { ($($t: ty, $n: expr), *) => { verus! { $(
impl DecodeSpecImpl for $t {
    open spec fn parse(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() >= $n { Some((le(b, $n) as $t, $n)) } else { None } }
}
impl VxCompact for $t {
    open spec fn compact_max() -> nat { $t::MAX as nat }
    open spec fn from_compact(n: nat) -> Self { n as $t }
    #[verifier::external_body]
    fn vx_decode_compact(s: &[u8]) -> (r: Result<Compact<Self>, parity_scale_codec::Error>) { <Compact<Self>>::decode(&mut &s[..]) }
}
)* } } }
parse_uint!(u8, 1, u16, 2, u32, 4, u64, 8, u128, 16);
macro_rules! parse_int { ($($t: ty, $n: expr), *) => { verus! { $(
impl DecodeSpecImpl for $t {
    open spec fn parse(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() >= $n { Some((signed(le(b, $n), $n) as $t, $n)) } else { None } }
}
)* } } }
parse_int!(i8, 1, i16, 2, i32, 4, i64, 8, i128, 16);
impl DecodeSpecImpl for bool {
    open spec fn parse(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() >= 1 && b[0] <= 1 { Some((b[0] == 1, 1)) } else { None } }
}
pub uninterp spec fn parts_u16(n: nat) -> PerU16;
pub uninterp spec fn parts_cent(n: nat) -> Percent;
pub uninterp spec fn parts_mill(n: nat) -> Permill;
pub uninterp spec fn parts_bill(n: nat) -> Perbill;
pub uninterp spec fn parts_quintill(n: nat) -> Perquintill;
macro_rules! parse_per { ($($t: ty, $u: ty, $n: expr, $max: expr, $f: ident), *) => { verus! { $(
impl DecodeSpecImpl for $t {
    open spec fn parse(b: Seq<u8>) -> Option<(Self, nat)> { if b.len() >= $n && le(b, $n) <= $max { Some(($f(le(b, $n)), $n)) } else { None } }
}
impl VxCompact for $t {
    open spec fn compact_max() -> nat { $u::MAX as nat }
    /// more parts than a whole are read as the whole
    open spec fn from_compact(n: nat) -> Self { $f(if n <= $max { n } else { $max }) }
    #[verifier::external_body]
    fn vx_decode_compact(s: &[u8]) -> (r: Result<Compact<Self>, parity_scale_codec::Error>) { <Compact<Self>>::decode(&mut &s[..]) }
}
)* } } }
parse_per!(PerU16, u16, 2, 65535, parts_u16, Percent, u8, 1, 100, parts_cent, Permill, u32, 4, 1_000_000, parts_mill, Perbill, u32, 4, 1_000_000_000, parts_bill,
    Perquintill, u64, 8, 1_000_000_000_000_000_000, parts_quintill);
#[verifier::external_body]
pub fn vx_codec_error(a: &'static str) -> parity_scale_codec::Error { a.into() }
/// `T::decode_all`: the value, if it takes all of the bytes
pub open spec fn parse_all<T: Decode>(b: Seq<u8>) -> Option<T> {
    match T::parse(b) { Some((v, n)) => if n == b.len() { Some(v) } else { None }, None => None }
}
/// `T::decode_all` on a slice
#[verifier::external_body]
pub fn vx_decode_all<T: Decode + DecodeAll>(s: &[u8]) -> (r: Result<T, parity_scale_codec::Error>)
    ensures r is Ok <==> parse_all::<T>(s@) is Some, r matches Ok(v) ==> parse_all::<T>(s@) == Some(v)
{ T::decode_all(&mut &s[..]) }
#[verifier::external_trait_specification]
pub trait ExDecodeAll: Sized {
    type ExternalTraitSpecificationFor: DecodeAll;
}
/// `trailing_zeros` of a number that is not 0
#[verifier::external_body]
pub fn vx_trailing_zeros64(a: u64) -> (r: u32)
    requires a != 0
    ensures r < 64, (a >> (r as u64)) & 1 == 1, forall|j: u64| j < r ==> #[trigger] (a >> j) & 1 == 0
{ a.trailing_zeros() }
#[verifier::external_body]
pub fn vx_max64(a: u64, b: u64) -> (r: u64)
    ensures r == if a >= b { a } else { b }
{ a.max(b) }
#[verifier::external_body]
pub fn vx_clamp32(a: u32, lo: u32, hi: u32) -> (r: u32)
    requires lo <= hi
    ensures r == if a < lo { lo } else if a > hi { hi } else { a }
{ a.clamp(lo, hi) }

// ------------------------------------------------------------------ bit sequences

/// bits as a bit sequence
pub uninterp spec fn bitvec_of<T, O>(bits: Seq<bool>) -> BitVec<T, O>;
/// bits of a bit sequence
pub uninterp spec fn bits<T, O>(v: BitVec<T, O>) -> Seq<bool>;
pub axiom fn axiom_bits<T, O>(s: Seq<bool>)
    ensures bits(#[trigger] bitvec_of::<T, O>(s)) == s;
/// bit sequences with the same bits are the same value
pub axiom fn axiom_bitvec_ext<T, O>(v: BitVec<T, O>)
    ensures bitvec_of::<T, O>(bits(v)) == v;
pub open spec fn bit_of(byte: u8, k: int) -> bool { (byte >> (k as u8)) & 1 == 1 }
pub open spec fn bit_of32(n: u32, k: int) -> bool { (n >> (k as u32)) & 1 == 1 }
/// store of a bit sequence: length in bytes
pub trait VxStore: Sized { spec fn width() -> int; }
impl VxStore for u8 { open spec fn width() -> int { 1 } }
impl VxStore for u16 { open spec fn width() -> int { 2 } }
impl VxStore for u32 { open spec fn width() -> int { 4 } }
impl VxStore for u64 { open spec fn width() -> int { 8 } }
/// order of bits in a store: which bit of the number is bit j of an element of w bits
pub trait BitOrder: Sized {
    spec fn index(w: int, j: int) -> int;
    proof fn index_range(w: int, j: int)
        requires 0 <= j < w
        ensures 0 <= Self::index(w, j) < w;
    /// the first half of a 64-bit element is the low one
    spec fn low_first() -> bool;
    proof fn index_halves(j: int)
        requires 0 <= j < 64
        ensures Self::index(64, j) == 32 * (if Self::low_first() { j / 32 } else { 1 - j / 32 }) + Self::index(32, j % 32);
}
impl BitOrder for Lsb0 {
    open spec fn index(w: int, j: int) -> int { j }
    proof fn index_range(w: int, j: int) {}
    open spec fn low_first() -> bool { true }
    proof fn index_halves(j: int) {}
}
impl BitOrder for Msb0 {
    open spec fn index(w: int, j: int) -> int { w - 1 - j }
    proof fn index_range(w: int, j: int) {}
    open spec fn low_first() -> bool { false }
    proof fn index_halves(j: int) {}
}
/// bit i of elements of w bytes
pub open spec fn bit_at<O: BitOrder>(b: Seq<u8>, w: int, i: int) -> bool {
    let k = O::index(8 * w, i % (8 * w));
    bit_of(b[i / (8 * w) * w + k / 8], k % 8)
}
/// bytes of the elements that n bits take
pub open spec fn store_bytes(n: nat, w: int) -> int { (n as int + 8 * w - 1) / (8 * w) * w }
/// most bits the codec reads, on any target
pub open spec fn most_bits() -> nat { 0x1fff_ffff }
/// bit sequence at a position: its bits and the position after it
pub open spec fn bits_at<T: VxStore, O: BitOrder>(b: Seq<u8>, pos: int) -> Option<(Seq<bool>, int)> {
    match compact_at::<u32>(b, pos) {
        Some((n, p)) => if p + store_bytes(n as nat, T::width()) <= b.len() {
            Some((Seq::new(n as nat, |i: int| bit_at::<O>(b.skip(p), T::width(), i)), p + store_bytes(n as nat, T::width())))
        } else { None },
        None => None,
    }
}
impl<T: VxStore, O: BitOrder> BitVec<T, O> {
    /// `<BitVec<T, O>>::decode_all`
    #[verifier::external_body]
    pub fn vx_decode_bits(s: &[u8]) -> (r: Result<Self, parity_scale_codec::Error>)
        ensures
            r is Ok <==> (bits_at::<T, O>(s@, 0) matches Some((v, p)) && p == s@.len() && v.len() <= most_bits()),
            r matches Ok(v) ==> v == bitvec_of::<T, O>(bits_at::<T, O>(s@, 0).unwrap().0)
    { unimplemented!() }
}
impl<O: BitOrder> BitVec<u32, O> {
    #[verifier::external_body]
    pub fn try_from_vec(v: Vec<u32>) -> (r: Result<Self, Vec<u32>>)
        ensures
            r is Ok <==> 32 * v@.len() <= usize::MAX / 8,
            r matches Ok(x) ==> bits(x) == Seq::new((32 * v@.len()) as nat, |i: int| bit_of32(v@[i / 32], O::index(32, i % 32)))
    { unimplemented!() }
    /// keeps the first `at` bits
    #[verifier::external_body]
    pub fn split_off(&mut self, at: usize) -> (r: Self)
        requires at <= bits(*old(self)).len()
        ensures bits(*final(self)) == bits(*old(self)).take(at as int)
    { unimplemented!() }
}

pub proof fn lemma_le_bound(b: Seq<u8>, n: nat)
    ensures le(b, n) < pow256(n)
    decreases n
{ if n > 0 { lemma_le_bound(b, (n - 1) as nat); assert(b[n - 1] as nat * pow256((n - 1) as nat) <= 255 * pow256((n - 1) as nat)) by (nonlinear_arith) requires b[n - 1] <= 255; } }
/// numbers have one encoding of a length
pub proof fn lemma_le_inj(a: Seq<u8>, b: Seq<u8>, n: nat)
    requires le(a, n) == le(b, n)
    ensures forall|i: int| 0 <= i < n ==> a[i] == b[i]
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_le_bound(a, m); lemma_le_bound(b, m);
        let (x, y, p) = (a[m as int] as int, b[m as int] as int, pow256(m) as int);
        if x < y { assert(x * p + p <= y * p) by (nonlinear_arith) requires x + 1 <= y, p >= 0; }
        if y < x { assert(y * p + p <= x * p) by (nonlinear_arith) requires y + 1 <= x, p >= 0; }
        lemma_le_inj(a, b, m);
    }
}
pub proof fn lemma_le_step(b: Seq<u8>, n: nat, p: nat)
    requires n > 0, pow256((n - 1) as nat) == p
    ensures le(b, n) == le(b, (n - 1) as nat) + p * b[n - 1]
{ let (x, y) = (b[n - 1] as nat, pow256((n - 1) as nat)); assert(x * y == y * x) by (nonlinear_arith); }
/// bits of a number are those of its bytes
pub proof fn lemma_bit32(n: u32, b: Seq<u8>, k: int)
    requires n == le(b, 4), 0 <= k < 32
    ensures bit_of32(n, k) == bit_of(b[k / 8], k % 8)
{
    let (a0, a1, a2, a3, j) = (b[0], b[1], b[2], b[3], k as u32);
    assert(pow256(0) == 1 && pow256(1) == 256 && pow256(2) == 65536 && pow256(3) == 16777216) by (compute);
    lemma_le_step(b, 1, 1); lemma_le_step(b, 2, 256); lemma_le_step(b, 3, 65536); lemma_le_step(b, 4, 16777216);
    assert(le(b, 0) == 0);
    assert(n == a0 as u32 + 256 * (a1 as u32) + 65536 * (a2 as u32) + 16777216 * (a3 as u32));
    assert(n == (a0 as u32) | ((a1 as u32) << 8) | ((a2 as u32) << 16) | ((a3 as u32) << 24)) by (bit_vector)
        requires n == add(add(add(a0 as u32, mul(256, a1 as u32)), mul(65536, a2 as u32)), mul(16777216, a3 as u32));
    assert(j < 8 ==> ((n >> j) & 1 == 1) == ((a0 >> (j as u8)) & 1 == 1)) by (bit_vector)
        requires n == (a0 as u32) | ((a1 as u32) << 8) | ((a2 as u32) << 16) | ((a3 as u32) << 24);
    assert(8 <= j < 16 ==> ((n >> j) & 1 == 1) == ((a1 >> (sub(j, 8) as u8)) & 1 == 1)) by (bit_vector)
        requires n == (a0 as u32) | ((a1 as u32) << 8) | ((a2 as u32) << 16) | ((a3 as u32) << 24);
    assert(16 <= j < 24 ==> ((n >> j) & 1 == 1) == ((a2 >> (sub(j, 16) as u8)) & 1 == 1)) by (bit_vector)
        requires n == (a0 as u32) | ((a1 as u32) << 8) | ((a2 as u32) << 16) | ((a3 as u32) << 24);
    assert(24 <= j < 32 ==> ((n >> j) & 1 == 1) == ((a3 >> (sub(j, 24) as u8)) & 1 == 1)) by (bit_vector)
        requires n == (a0 as u32) | ((a1 as u32) << 8) | ((a2 as u32) << 16) | ((a3 as u32) << 24);
}

pub proof fn lemma_compact_prefix(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len()
    ensures
        compact_raw(b) matches Some((v, l)) ==> 1 <= l <= b.len() && (k >= l ==> compact_raw(b.take(k)) == compact_raw(b)) && (k < l ==> compact_raw(b.take(k)) is None),
        compact_raw(b) is None ==> compact_raw(b.take(k)) is None
{
    if b.len() > 0 && k > 0 {
        let c = b.take(k);
        if k >= 2 { lemma_le_prefix(c, b, 2); }
        if k >= 4 { lemma_le_prefix(c, b, 4); }
        let n = (b[0] / 4 + 4) as nat;
        if k >= n + 1 { lemma_le_prefix(c.skip(1), b.skip(1), n); }
    }
}
/// the whole length of a compact number of a type up to 128 bits is at most 17
pub proof fn lemma_compact_len(b: Seq<u8>)
    ensures compact_raw(b) matches Some((v, l)) ==> (v <= u128::MAX ==> l <= 17)
{
    if b.len() > 0 && b[0] % 4 == 3 {
        let n = (b[0] / 4 + 4) as nat;
        if n >= 17 {
            lemma_pow256_mono(16, (n - 1) as nat);
            assert(pow256(16) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000) by (compute);
        }
    }
}

} // verus!
}
