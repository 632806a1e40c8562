== module traits
== prelude
use core::any::TypeId;
use core::fmt::{Debug, Display};
use external_memory_tools::ExternalMemory;
use scale_info::{form::PortableForm, interner::UntrackedSymbol, PortableRegistry, Type, TypeDef, TypeDefPrimitive, TypeParameter};
use frame_metadata::{
    v14::{PalletConstantMetadata, PalletMetadata as PalletMetadataV14, RuntimeMetadataV14, SignedExtensionMetadata as SignedExtensionMetadataV14},
    v15::{PalletMetadata as PalletMetadataV15, RuntimeMetadataV15, SignedExtensionMetadata as SignedExtensionMetadataV15},
};
use crate::cards::*;
impl core::fmt::Display for MetaStructureErrorV14 { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl core::fmt::Display for MetaVersionErrorPallets { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
use crate::decoding_sci::*;
use crate::decoding_sci_ext::{Item, item_of, versions, one, text};
use crate::error::*;
use crate::lib::*;
use crate::propagated::*;
use crate::special_indicators::*;
//VERUS
pub type Registry = Map<u32, Type<PortableForm>>;
/// type bound to a parameter of that name
pub open spec fn bound(p: Seq<TypeParameter<PortableForm>>, name: Seq<char>) -> Option<UntrackedSymbol<TypeId>>
    decreases p.len()
{ if p.len() == 0 { None } else if p.last().name@ == name { p.last().ty } else { bound(p.drop_last(), name) } }
pub open spec fn params_of(p: Seq<TypeParameter<PortableForm>>) -> Option<ExtrinsicTypeParams> {
    match (bound(p, "Address"@), bound(p, "Call"@), bound(p, "Signature"@), bound(p, "Extra"@)) {
        (Some(address_ty), Some(call_ty), Some(signature_ty), Some(extra_ty)) => Some(ExtrinsicTypeParams { address_ty, call_ty, signature_ty, extra_ty }),
        _ => None,
    }
}
/// value and type of the last constant named Version
pub open spec fn version_in(c: Seq<PalletConstantMetadata<PortableForm>>) -> Option<(Vec<u8>, UntrackedSymbol<TypeId>)>
    decreases c.len()
{ if c.len() == 0 { None } else if c.last().name@ == "Version"@ { Some((c.last().value, c.last().ty)) } else { version_in(c.drop_last()) } }
/// that of the first pallet named System
pub open spec fn version_v14(p: Seq<PalletMetadataV14<PortableForm>>) -> Option<(Vec<u8>, UntrackedSymbol<TypeId>)>
    decreases p.len()
{ if p.len() == 0 { None } else if p[0].name@ == "System"@ { version_in(p[0].constants@) } else { version_v14(p.skip(1)) } }
pub open spec fn version_v15(p: Seq<PalletMetadataV15<PortableForm>>) -> Option<(Vec<u8>, UntrackedSymbol<TypeId>)>
    decreases p.len()
{ if p.len() == 0 { None } else if p[0].name@ == "System"@ { version_in(p[0].constants@) } else { version_v15(p.skip(1)) } }
/// versions and names among members, in order
pub open spec fn stated(f: Seq<FieldData>) -> Seq<Item> { f.map_values(|x: FieldData| item_of(x.data.data)) }
pub open spec fn names(f: Seq<FieldData>) -> Seq<Seq<char>>
    decreases f.len()
{ if f.len() == 0 { seq![] } else { match f.last().data.data { ParsedData::Text { text, specialty: SpecialtyStr::SpecName } => names(f.drop_last()).push(text@), _ => names(f.drop_last()) } } }
pub proof fn lemma_stated(f: Seq<FieldData>, i: int)
    requires 0 <= i <= f.len()
    ensures
        versions(stated(f.take(i))).len() <= versions(stated(f)).len(), names(f.take(i)).len() <= names(f).len(),
        i > 0 ==> versions(stated(f.take(i))) == (match item_of(f[i - 1].data.data) { Item::Version(v) => versions(stated(f.take(i - 1))).push(v), _ => versions(stated(f.take(i - 1))) }),
        i > 0 ==> names(f.take(i)) == (match f[i - 1].data.data { ParsedData::Text { text, specialty: SpecialtyStr::SpecName } => names(f.take(i - 1)).push(text@), _ => names(f.take(i - 1)) }),
    decreases f.len()
{
    if i > 0 { assert(f.take(i).drop_last() =~= f.take(i - 1)); assert(stated(f.take(i)).drop_last() =~= stated(f.take(i - 1))); }
    if i < f.len() {
        lemma_stated(f.drop_last(), i); assert(f.drop_last().take(i) =~= f.take(i)); assert(stated(f).drop_last() =~= stated(f.drop_last()));
    } else { assert(f.take(i) =~= f); }
}
pub open spec fn members(d: ParsedData) -> Seq<FieldData> { match d { ParsedData::Composite(f) => f@, _ => Seq::empty() } }
/// a struct with exactly one version and one name
pub open spec fn named(d: ParsedData) -> Option<SpecNameVersion> {
    match d {
        ParsedData::Composite(f) => {
            let (v, n) = (versions(stated(f@)), names(f@));
            if v.len() == 1 && n.len() == 1 { Some(SpecNameVersion { printed_spec_version: string_of(v[0]), spec_name: string_of(n[0]) }) } else { None }
        },
        _ => None,
    }
}
/// stands in for the type argument M of functions that use only its registry
#[derive(Debug)]
#[verifier::external_derive]
pub struct VxMeta { pub r: PortableRegistry }
impl AsMetadata<VxMem> for VxMeta {
    type TypeRegistry = PortableRegistry;
    type MetaStructureError = MetaStructureErrorV14;
    open spec fn known_types(&self) -> Registry { portable(self.r) }
    open spec fn call_id(&self) -> Option<u32> { None }
    open spec fn extension_list(&self) -> Option<Seq<SignedExtensionMetadata>> { None }
    open spec fn name_version(&self) -> Option<SpecNameVersion> { None }
    fn types(&self) -> PortableRegistry { self.r.vx_clone() }
    fn call_ty(&self) -> Result<UntrackedSymbol<TypeId>, MetaStructureErrorV14> { Err(MetaStructureErrorV14::NoCallParam) }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, MetaStructureErrorV14> { Err(MetaStructureErrorV14::NoCallParam) }
    fn spec_name_version(&self) -> Result<SpecNameVersion, MetaStructureErrorV14> { Err(MetaStructureErrorV14::NoCallParam) }
}
/// type that may carry the parameters of an extrinsic: bytes
pub open spec fn is_bytes(reg: Registry, t: Type<PortableForm>) -> bool {
    match t.type_def {
        TypeDef::Sequence(x) => reg.contains_key(sym(x.type_param)) && reg[sym(x.type_param)].type_def matches TypeDef::Primitive(TypeDefPrimitive::U8),
        _ => false,
    }
}
/// types of the parts of an extrinsic in V14: those bound by the extrinsic type, a wrapper of bytes
pub open spec fn params_v14(m: RuntimeMetadataV14) -> Option<ExtrinsicTypeParams> {
    let reg = portable(m.types);
    match husk(reg, sym(m.extrinsic.ty), Seq::empty()) {
        Ok(h) => if is_bytes(reg, h.ty) { params_of(h.ty.type_params@) } else {
            match h.ty.type_def {
                TypeDef::Composite(c) => if c.fields@.len() == 1 && reg.contains_key(sym(c.fields@[0].ty)) && is_bytes(reg, reg[sym(c.fields@[0].ty)]) { params_of(h.ty.type_params@) } else { None },
                _ => None,
            }
        },
        Err(_) => None,
    }
}
/// name and version in the value of the version constant
pub open spec fn named_by(reg: Registry, c: Option<(Vec<u8>, UntrackedSymbol<TypeId>)>) -> Option<SpecNameVersion> {
    match c { Some((v, ty)) => match blob(reg, v@, sym(ty)) { Ok(x) => named(x.data), Err(_) => None }, None => None }
}
pub open spec fn ext_v14(x: SignedExtensionMetadataV14<PortableForm>) -> SignedExtensionMetadata {
    SignedExtensionMetadata { identifier: x.identifier, ty: x.ty, additional_signed: x.additional_signed }
}
pub open spec fn ext_v15(x: SignedExtensionMetadataV15<PortableForm>) -> SignedExtensionMetadata {
    SignedExtensionMetadata { identifier: x.identifier, ty: x.ty, additional_signed: x.additional_signed }
}
impl vstd::std_specs::convert::FromSpecImpl<SignedExtensionMetadataV14<PortableForm>> for SignedExtensionMetadata {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: SignedExtensionMetadataV14<PortableForm>) -> Self { ext_v14(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<SignedExtensionMetadataV15<PortableForm>> for SignedExtensionMetadata {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: SignedExtensionMetadataV15<PortableForm>) -> Self { ext_v15(e) }
}
== fn process_extrinsic_type_params
-- spec
        ensures match r { Ok(x) => params_of(extrinsic_type_params@) == Some(x), Err(_) => params_of(extrinsic_type_params@) is None }
-- start
    proof { reveal_strlit("Address"); reveal_strlit("Call"); reveal_strlit("Signature"); reveal_strlit("Extra");
        assert("Address"@.len() == 7 && "Call"@.len() == 4 && "Signature"@.len() == 9 && "Extra"@.len() == 5);
        assert(extrinsic_type_params@.take(extrinsic_type_params@.len() as int) == extrinsic_type_params@); }
-- loop 1
    invariant
        __s1@ == extrinsic_type_params@, __i1 <= __s1@.len(),
        "Address"@ != "Call"@, "Address"@ != "Signature"@, "Address"@ != "Extra"@, "Call"@ != "Signature"@, "Call"@ != "Extra"@, "Signature"@ != "Extra"@,
        found_address == bound(__s1@.take(__i1 as int), "Address"@), found_signature == bound(__s1@.take(__i1 as int), "Signature"@),
        found_extra == bound(__s1@.take(__i1 as int), "Extra"@), found_call == bound(__s1@.take(__i1 as int), "Call"@),
    decreases __s1@.len() - __i1
-- loop 1 start
    proof { assert(__s1@.take(__i1 + 1).drop_last() == __s1@.take(__i1 as int)); }
== fn version_constant_data_and_ty_v14
-- rewrite `let mut runtime_version_data_and_ty = None;` => `let mut runtime_version_data_and_ty: Option<(Vec<u8>, UntrackedSymbol<TypeId>)> = None;` ?
-- attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
-- spec
        ensures match r { Ok(x) => version_v14(pallets@) == Some(x), Err(_) => version_v14(pallets@) is None }
-- start
    proof { axiom_equality(); broadcast use axiom_vec_bc; assert(pallets@.skip(0) == pallets@);
        assert forall|i: int| 0 <= i < pallets@.len() implies (#[trigger] pallets@[i]).constants@.take(pallets@[i].constants@.len() as int) == pallets@[i].constants@ by { } }
-- loop 1
    invariant_except_break
        !system_block && runtime_version_data_and_ty is None && version_v14(pallets@) == version_v14(pallets@.skip(__i1 as int)),
    invariant
        __i1 <= __s1@.len(),
    ensures
        system_block ==> version_v14(pallets@) == runtime_version_data_and_ty, !system_block ==> version_v14(pallets@) is None,
    decreases __s1@.len() - __i1
-- loop 1 start
    proof { assert(pallets@.skip(__i1 as int).skip(1) == pallets@.skip(__i1 + 1)); assert(pallets@[__i1 as int] == pallets@.skip(__i1 as int)[0]); }
-- loop 2
    invariant
        __i2 <= __s2@.len(),
        runtime_version_data_and_ty == version_in(__s2@.take(__i2 as int)),
    decreases __s2@.len() - __i2
-- loop 2 start
    proof { assert(__s2@.take(__i2 + 1).drop_last() == __s2@.take(__i2 as int)); }
== fn version_constant_data_and_ty_v15
-- rewrite `let mut runtime_version_data_and_ty = None;` => `let mut runtime_version_data_and_ty: Option<(Vec<u8>, UntrackedSymbol<TypeId>)> = None;` ?
-- attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
-- spec
        ensures match r { Ok(x) => version_v15(pallets@) == Some(x), Err(_) => version_v15(pallets@) is None }
-- start
    proof { axiom_equality(); broadcast use axiom_vec_bc; assert(pallets@.skip(0) == pallets@);
        assert forall|i: int| 0 <= i < pallets@.len() implies (#[trigger] pallets@[i]).constants@.take(pallets@[i].constants@.len() as int) == pallets@[i].constants@ by { } }
-- loop 1
    invariant_except_break
        !system_block && runtime_version_data_and_ty is None && version_v15(pallets@) == version_v15(pallets@.skip(__i1 as int)),
    invariant
        __i1 <= __s1@.len(),
    ensures
        system_block ==> version_v15(pallets@) == runtime_version_data_and_ty, !system_block ==> version_v15(pallets@) is None,
    decreases __s1@.len() - __i1
-- loop 1 start
    proof { assert(pallets@.skip(__i1 as int).skip(1) == pallets@.skip(__i1 + 1)); assert(pallets@[__i1 as int] == pallets@.skip(__i1 as int)[0]); }
-- loop 2
    invariant
        __i2 <= __s2@.len(),
        runtime_version_data_and_ty == version_in(__s2@.take(__i2 as int)),
    decreases __s2@.len() - __i2
-- loop 2 start
    proof { assert(__s2@.take(__i2 + 1).drop_last() == __s2@.take(__i2 as int)); }
== fn spec_name_version_from_runtime_version_data
-- attr #[verifier::loop_isolation(false)]
-- spec
        ensures match r { Ok(x) => named(parsed_data) == Some(x), Err(_) => named(parsed_data) is None }
-- start
    let ghost __f = members(parsed_data);
    proof { broadcast use axiom_string_bc; assert(__f.take(0) =~= Seq::empty()); assert(stated(__f.take(0)) =~= Seq::empty()); assert(__f.take(__f.len() as int) =~= __f); }
-- loop 1
    invariant
        __s1@ == __f, __i1 <= __s1@.len(),
        one(text(printed_spec_version)) == versions(stated(__f.take(__i1 as int))), one(text(spec_name)) == names(__f.take(__i1 as int)),
    decreases __s1@.len() - __i1
-- loop 1 start
    proof { lemma_stated(__f, __i1 + 1); }
== trait ResolveType
    /// the types
    spec fn reg(&self) -> Registry;
== fn ResolveType::resolve_ty
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r matches Ok(t) ==> final(ext_memory).faults() == old(ext_memory).faults() && self.reg().contains_key(id) && self.reg()[id] == t,
            r matches Err(e) ==> kind_registry(e) is Plain,
            r is Err && final(ext_memory).faults() == old(ext_memory).faults() ==> !self.reg().contains_key(id)
== trait AsMetadata
    /// the types
    spec fn known_types(&self) -> Registry;
    /// type of the call
    spec fn call_id(&self) -> Option<u32>;
    spec fn extension_list(&self) -> Option<Seq<SignedExtensionMetadata>>;
    spec fn name_version(&self) -> Option<SpecNameVersion>;
== fn AsMetadata::types
-- spec
        ensures r.reg() == self.known_types()
== fn AsMetadata::call_ty
-- spec
        ensures match r { Ok(s) => self.call_id() == Some(sym(s)), Err(_) => self.call_id() is None }
== fn AsMetadata::signed_extensions
-- spec
        ensures match r { Ok(s) => self.extension_list() == Some(s@), Err(_) => self.extension_list() is None }
== fn AsMetadata::spec_name_version
-- spec
        ensures match r { Ok(s) => self.name_version() == Some(s), Err(_) => self.name_version() is None }
== trait AsCompleteMetadata
    /// types of the parts of an extrinsic
    spec fn type_params(&self) -> Option<ExtrinsicTypeParams>;
    spec fn format_version(&self) -> Option<u8>;
== fn AsCompleteMetadata::extrinsic_type_params
-- spec
        ensures match r { Ok(s) => self.type_params() == Some(s), Err(_) => self.type_params() is None }
== fn AsCompleteMetadata::extrinsic_version
-- spec
        ensures match r { Ok(s) => self.format_version() == Some(s), Err(_) => self.format_version() is None }
== fn SignedExtensionMetadata as From<SignedExtensionMetadataV14<PortableForm>>::from
== impl RuntimeMetadataV14 as AsMetadata<E>
    open spec fn known_types(&self) -> Registry { portable(self.types) }
    open spec fn call_id(&self) -> Option<u32> { match params_v14(*self) { Some(t) => Some(sym(t.call_ty)), None => None } }
    open spec fn extension_list(&self) -> Option<Seq<SignedExtensionMetadata>> { Some(self.extrinsic.signed_extensions@.map_values(|x: SignedExtensionMetadataV14<PortableForm>| ext_v14(x))) }
    open spec fn name_version(&self) -> Option<SpecNameVersion> { named_by(portable(self.types), version_v14(self.pallets@)) }
== fn RuntimeMetadataV14 as AsMetadata<E>::types
== fn RuntimeMetadataV14 as AsMetadata<E>::spec_name_version
-- start
    hide(blob); hide(named); hide(version_v14); hide(params_v14);
    proof { broadcast use axiom_vec_bc, axiom_vec_as_ref; }
-- rewrite `decode_all_as_type::<&[u8], (), RuntimeMetadataV14>($a, $b, $c, $d)` => `decode_all_as_type::<VxBytes, VxMem, VxMeta>($a, &VxBytes { b: $b }, &mut VxMem { }, $d)`
== fn RuntimeMetadataV14 as AsMetadata<E>::call_ty
== fn RuntimeMetadataV14 as AsMetadata<E>::signed_extensions
-- rewrite `self.extrinsic.signed_extensions.iter().cloned().map(SignedExtensionMetadata::from).collect()` => `vx_from_all(&self.extrinsic.signed_extensions)`
== impl RuntimeMetadataV14 as AsCompleteMetadata<E>
    open spec fn type_params(&self) -> Option<ExtrinsicTypeParams> { params_v14(*self) }
    open spec fn format_version(&self) -> Option<u8> { Some(self.extrinsic.version) }
== fn RuntimeMetadataV14 as AsCompleteMetadata<E>::extrinsic_type_params
-- rewrite `husk_type::<(), RuntimeMetadataV14>` => `husk_type::<VxMem, VxMeta>`
-- rewrite `&mut ()` => `&mut VxMem { }`
-- rewrite `husked_extrinsic_ty.id` => `husked_extrinsic_ty.__id` ?
== fn RuntimeMetadataV14 as AsCompleteMetadata<E>::extrinsic_version
== fn SignedExtensionMetadata as From<SignedExtensionMetadataV15<PortableForm>>::from
== impl RuntimeMetadataV15 as AsMetadata<E>
    open spec fn known_types(&self) -> Registry { portable(self.types) }
    open spec fn call_id(&self) -> Option<u32> { Some(sym(self.extrinsic.call_ty)) }
    open spec fn extension_list(&self) -> Option<Seq<SignedExtensionMetadata>> { Some(self.extrinsic.signed_extensions@.map_values(|x: SignedExtensionMetadataV15<PortableForm>| ext_v15(x))) }
    open spec fn name_version(&self) -> Option<SpecNameVersion> { named_by(portable(self.types), version_v15(self.pallets@)) }
== fn RuntimeMetadataV15 as AsMetadata<E>::types
== fn RuntimeMetadataV15 as AsMetadata<E>::spec_name_version
-- start
    hide(blob); hide(named); hide(version_v15); hide(params_v14);
    proof { broadcast use axiom_vec_bc, axiom_vec_as_ref; }
-- rewrite `decode_all_as_type::<&[u8], (), RuntimeMetadataV15>($a, $b, $c, $d)` => `decode_all_as_type::<VxBytes, VxMem, VxMeta>($a, &VxBytes { b: $b }, &mut VxMem { }, $d)`
== fn RuntimeMetadataV15 as AsMetadata<E>::call_ty
== fn RuntimeMetadataV15 as AsMetadata<E>::signed_extensions
-- rewrite `self.extrinsic.signed_extensions.iter().cloned().map(SignedExtensionMetadata::from).collect()` => `vx_from_all(&self.extrinsic.signed_extensions)`
== impl RuntimeMetadataV15 as AsCompleteMetadata<E>
    open spec fn type_params(&self) -> Option<ExtrinsicTypeParams> { Some(ExtrinsicTypeParams { address_ty: self.extrinsic.address_ty, call_ty: self.extrinsic.call_ty, signature_ty: self.extrinsic.signature_ty, extra_ty: self.extrinsic.extra_ty }) }
    open spec fn format_version(&self) -> Option<u8> { Some(self.extrinsic.version) }
== fn RuntimeMetadataV15 as AsCompleteMetadata<E>::extrinsic_type_params
== fn RuntimeMetadataV15 as AsCompleteMetadata<E>::extrinsic_version
== impl PortableRegistry as ResolveType<E>
    open spec fn reg(&self) -> Registry { portable(*self) }
== fn PortableRegistry as ResolveType<E>::resolve_ty
