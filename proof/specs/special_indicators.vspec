== module special_indicators
== prelude
use external_memory_tools::{AddressableBuffer, ExternalMemory};
use scale_info::{form::PortableForm, Field, Path, Type, TypeDef, TypeDefPrimitive, Variant};
use crate::cards::*;
use crate::decoding_sci::*;
use crate::error::*;
use crate::propagated::*;
use crate::traits::*;


//VERUS
/// role of what is in a field of a single-member wrapper: by field name, then by type name
pub open spec fn hint_of_field(f: Field<PortableForm>) -> Hint {
    if f.name matches Some(n) && n@ == "nonce"@ { Hint::FieldNonce }
    else if f.name matches Some(n) && n@ == "spec_version"@ { Hint::FieldSpecVersion }
    else if f.name matches Some(n) && n@ == "spec_name"@ { Hint::FieldSpecName }
    else if f.name matches Some(n) && (n@ == "tx_version"@ || n@ == "transaction_version"@) { Hint::FieldTxVersion }
    else if f.type_name matches Some(t) && (t@ == "Balance"@ || t@ == "BalanceOf<T>"@ || t@ == "BalanceOf<T, I>"@
        || t@ == "DepositBalance"@ || t@ == "ExtendedBalance"@ || t@ == "PalletBalanceOf<T>"@ || t@ == "T::Balance"@) { Hint::FieldBalance }
    else { Hint::None }
}
/// role of what is in an extension
pub open spec fn hint_of_extension(id: Seq<char>) -> Hint {
    if id == "CheckSpecVersion"@ { Hint::CheckSpecVersion }
    else if id == "CheckTxVersion"@ { Hint::CheckTxVersion }
    else if id == "CheckGenesis"@ { Hint::CheckGenesis }
    else if id == "CheckMortality"@ { Hint::CheckMortality }
    else if id == "CheckNonce"@ { Hint::CheckNonce }
    else if id == "ChargeAssetTxPayment"@ { Hint::ChargeAssetTxPayment }
    else if id == "ChargeTransactionPayment"@ { Hint::ChargeTransactionPayment }
    else { Hint::None }
}
/// role of a tuple member, by the name of its type
pub open spec fn hint_of_path(p: Path<PortableForm>) -> Hint {
    match ident(p) {
        Some(a) => if a@ == "CheckNonce"@ { Hint::CheckNonce }
            else if a@ == "ChargeAssetTxPayment"@ { Hint::ChargeAssetTxPayment }
            else if a@ == "ChargeTransactionPayment"@ { Hint::ChargeTransactionPayment }
            else { Hint::None },
        None => Hint::None,
    }
}
pub open spec fn role_uint(h: Hint) -> SpecialtyUnsignedInteger {
    match h {
        Hint::CheckSpecVersion | Hint::FieldSpecVersion => SpecialtyUnsignedInteger::SpecVersion,
        Hint::CheckTxVersion | Hint::FieldTxVersion => SpecialtyUnsignedInteger::TxVersion,
        Hint::CheckNonce | Hint::FieldNonce => SpecialtyUnsignedInteger::Nonce,
        Hint::ChargeTransactionPayment => SpecialtyUnsignedInteger::Tip,
        Hint::ChargeAssetTxPayment => SpecialtyUnsignedInteger::TipAsset,
        Hint::FieldBalance => SpecialtyUnsignedInteger::Balance,
        _ => SpecialtyUnsignedInteger::None,
    }
}
pub open spec fn role_str(h: Hint) -> SpecialtyStr { if h is FieldSpecName { SpecialtyStr::SpecName } else { SpecialtyStr::None } }
pub open spec fn role_hash(h: Hint) -> SpecialtyH256 {
    match h { Hint::CheckGenesis => SpecialtyH256::GenesisHash, Hint::CheckMortality => SpecialtyH256::BlockHash, _ => SpecialtyH256::None }
}
pub open spec fn in_namespace(p: Path<PortableForm>, a: Seq<char>, b: Seq<char>) -> bool {
    p.segments@.len() == 3 && p.segments@[0]@ == a && p.segments@[1]@ == b
}
/// well-known type that the path of a type names
pub open spec fn hinted(ty: Type<PortableForm>) -> SpecialtyTypeHinted {
    match ident(ty.path) {
        None => SpecialtyTypeHinted::None,
        Some(a) =>
            if a@ == "AccountId32"@ { SpecialtyTypeHinted::AccountId32 }
            else if a@ == "Call"@ || a@ == "RuntimeCall"@ { SpecialtyTypeHinted::PalletSpecific(PalletSpecificItem::Call) }
            else if a@ == "Era"@ { SpecialtyTypeHinted::Era }
            else if a@ == "Event"@ || a@ == "RuntimeEvent"@ { SpecialtyTypeHinted::PalletSpecific(PalletSpecificItem::Event) }
            else if a@ == "AccountId20"@ || a@ == "H160"@ { SpecialtyTypeHinted::H160 }
            else if a@ == "H256"@ { SpecialtyTypeHinted::H256 }
            else if a@ == "H512"@ { SpecialtyTypeHinted::H512 }
            else if a@ == "MultiSignature"@ { SpecialtyTypeHinted::MultiSignature }
            else if a@ == "Perbill"@ { SpecialtyTypeHinted::Perbill }
            else if a@ == "Percent"@ { SpecialtyTypeHinted::Percent }
            else if a@ == "Permill"@ { SpecialtyTypeHinted::Permill }
            else if a@ == "Perquintill"@ { SpecialtyTypeHinted::Perquintill }
            else if a@ == "PerU16"@ { SpecialtyTypeHinted::PerU16 }
            else if a@ == "Public"@ {
                if in_namespace(ty.path, "sp_core"@, "ed25519"@) { SpecialtyTypeHinted::PublicEd25519 }
                else if in_namespace(ty.path, "sp_core"@, "sr25519"@) { SpecialtyTypeHinted::PublicSr25519 }
                else if in_namespace(ty.path, "sp_core"@, "ecdsa"@) { SpecialtyTypeHinted::PublicEcdsa }
                else { SpecialtyTypeHinted::None }
            }
            else if a@ == "Signature"@ {
                if in_namespace(ty.path, "sp_core"@, "ed25519"@) { SpecialtyTypeHinted::SignatureEd25519 }
                else if in_namespace(ty.path, "sp_core"@, "sr25519"@) { SpecialtyTypeHinted::SignatureSr25519 }
                else if in_namespace(ty.path, "sp_core"@, "ecdsa"@) { SpecialtyTypeHinted::SignatureEcdsa }
                else { SpecialtyTypeHinted::None }
            }
            else if a@ == "UncheckedExtrinsic"@ && ty.path.segments@.len() == 4 && ty.path.segments@[0]@ == "sp_runtime"@
                && ty.path.segments@[1]@ == "generic"@ && ty.path.segments@[2]@ == "unchecked_extrinsic"@ { SpecialtyTypeHinted::UncheckedExtrinsic }
            else { SpecialtyTypeHinted::None },
    }
}
/// signature that a field with this type name and an underlying array of bytes of this length stands for
pub open spec fn signature_named(f: Field<PortableForm>, len: u32) -> SignatureIndicator {
    match f.type_name {
        Some(n) => if n@ == "ecdsa::Signature"@ { if len == 65 { SignatureIndicator::Ecdsa } else { SignatureIndicator::None } }
            else if n@ == "ed25519::Signature"@ { if len == 64 { SignatureIndicator::Ed25519 } else { SignatureIndicator::None } }
            else if n@ == "sr25519::Signature"@ { if len == 64 { SignatureIndicator::Sr25519 } else { SignatureIndicator::None } }
            else { SignatureIndicator::None },
        None => SignatureIndicator::None,
    }
}
pub open spec fn is_byte(t: Type<PortableForm>) -> bool { t.type_def matches TypeDef::Primitive(p) && p is U8 }
/// signature that a field stands for
pub open spec fn signature_of(reg: Registry, f: Field<PortableForm>) -> SignatureIndicator {
    match husk(reg, sym(f.ty), Seq::empty()) {
        Err(_) => SignatureIndicator::None,
        Ok(h) => if h.set.compact_at is Some { SignatureIndicator::None } else {
            match h.ty.type_def {
                TypeDef::Array(a) => if reg.contains_key(sym(a.type_param)) && is_byte(reg[sym(a.type_param)]) { signature_named(f, a.len) } else { SignatureIndicator::None },
                _ => SignatureIndicator::None,
            }
        },
    }
}
/// how a multi-signature is decoded, and whether its variant index is passed
pub open spec fn signature_seen(reg: Registry, b: Seq<u8>, pos: int, ty: Type<PortableForm>) -> (SpecialtyTypeChecked, int) {
    match ty.type_def {
        TypeDef::Variant(x) => match picked(x.variants@, b, pos) {
            Some(v) => if v.fields@.len() != 1 { (SpecialtyTypeChecked::None, pos) } else {
                match signature_of(reg, v.fields@[0]) {
                    SignatureIndicator::None => (SpecialtyTypeChecked::None, pos),
                    SignatureIndicator::Ecdsa => (SpecialtyTypeChecked::SignatureEcdsa, pos + 1),
                    SignatureIndicator::Ed25519 => (SpecialtyTypeChecked::SignatureEd25519, pos + 1),
                    SignatureIndicator::Sr25519 => (SpecialtyTypeChecked::SignatureSr25519, pos + 1),
                }
            },
            None => (SpecialtyTypeChecked::None, pos),
        },
        _ => (SpecialtyTypeChecked::None, pos),
    }
}
/// enum of calls or events of a pallet that a variant leads to
pub open spec fn item_of(reg: Registry, v: Variant<PortableForm>, item: PalletSpecificItem) -> Option<Type<PortableForm>> {
    if v.fields@.len() == 1 && reg.contains_key(sym(v.fields@[0].ty)) && hinted(reg[sym(v.fields@[0].ty)]) == SpecialtyTypeHinted::PalletSpecific(item)
        && reg[sym(v.fields@[0].ty)].type_def is Variant { Some(reg[sym(v.fields@[0].ty)]) } else { None }
}
pub open spec fn item_seen(reg: Registry, b: Seq<u8>, pos: int, ty: Type<PortableForm>, item: PalletSpecificItem) -> (SpecialtyTypeChecked, int) {
    match ty.type_def {
        TypeDef::Variant(x) => match picked(x.variants@, b, pos) {
            Some(v) => match item_of(reg, v, item) {
                Some(t) => match t.type_def {
                    TypeDef::Variant(y) => (SpecialtyTypeChecked::PalletSpecific {
                        pallet_name: v.name, pallet_info: info_of(t), pallet_variant: v, item_ty_id: sym(v.fields@[0].ty), variants: y.variants, item }, pos + 1),
                    _ => (SpecialtyTypeChecked::None, pos),
                },
                None => (SpecialtyTypeChecked::None, pos),
            },
            None => (SpecialtyTypeChecked::None, pos),
        },
        _ => (SpecialtyTypeChecked::None, pos),
    }
}
/// how a type is decoded at a position, and the position its contents start at
pub open spec fn seen(reg: Registry, b: Seq<u8>, pos: int, ty: Type<PortableForm>) -> (SpecialtyTypeChecked, int) {
    match hinted(ty) {
        SpecialtyTypeHinted::None | SpecialtyTypeHinted::UncheckedExtrinsic => (SpecialtyTypeChecked::None, pos),
        SpecialtyTypeHinted::AccountId32 => (SpecialtyTypeChecked::AccountId32, pos),
        SpecialtyTypeHinted::Era => (SpecialtyTypeChecked::Era, pos),
        SpecialtyTypeHinted::H160 => (SpecialtyTypeChecked::H160, pos),
        SpecialtyTypeHinted::H256 => (SpecialtyTypeChecked::H256, pos),
        SpecialtyTypeHinted::H512 => (SpecialtyTypeChecked::H512, pos),
        SpecialtyTypeHinted::MultiSignature => signature_seen(reg, b, pos, ty),
        SpecialtyTypeHinted::PalletSpecific(item) => item_seen(reg, b, pos, ty, item),
        SpecialtyTypeHinted::Perbill => (SpecialtyTypeChecked::Perbill, pos),
        SpecialtyTypeHinted::Percent => (SpecialtyTypeChecked::Percent, pos),
        SpecialtyTypeHinted::Permill => (SpecialtyTypeChecked::Permill, pos),
        SpecialtyTypeHinted::Perquintill => (SpecialtyTypeChecked::Perquintill, pos),
        SpecialtyTypeHinted::PerU16 => (SpecialtyTypeChecked::PerU16, pos),
        SpecialtyTypeHinted::PublicEd25519 => (SpecialtyTypeChecked::PublicEd25519, pos),
        SpecialtyTypeHinted::PublicSr25519 => (SpecialtyTypeChecked::PublicSr25519, pos),
        SpecialtyTypeHinted::PublicEcdsa => (SpecialtyTypeChecked::PublicEcdsa, pos),
        SpecialtyTypeHinted::SignatureEd25519 => (SpecialtyTypeChecked::SignatureEd25519, pos),
        SpecialtyTypeHinted::SignatureSr25519 => (SpecialtyTypeChecked::SignatureSr25519, pos),
        SpecialtyTypeHinted::SignatureEcdsa => (SpecialtyTypeChecked::SignatureEcdsa, pos),
    }
}
== type PalletSpecificItem #[derive(Debug, Eq, PartialEq, Structural)]
== type SpecialtyUnsignedInteger #[derive(Clone, Copy, Debug, Eq, PartialEq)]
== fn Hint::from_field
-- spec
        ensures r == hint_of_field(*field)
== fn Hint::from_path
-- spec
        ensures r == hint_of_path(*path)
== fn Hint::unsigned_integer
-- spec
        ensures r == role_uint(*self)
== fn Hint::string
-- spec
        ensures r == role_str(*self)
== fn Hint::hash256
-- spec
        ensures r == role_hash(*self)
== fn SpecialtyTypeHinted::from_type
-- spec
        ensures r == hinted(*ty)
== fn Hint::from_ext_meta
-- spec
        ensures r == hint_of_extension(signed_ext_meta.identifier@)
== fn SignatureIndicator::from_field
-- start
    proof { pattern_may_be_missed(); }
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            clean(old(ext_memory).faults(), final(ext_memory).faults()),
            !(r is None) ==> final(ext_memory).faults() == old(ext_memory).faults(),
            final(ext_memory).faults() == old(ext_memory).faults() ==> r == signature_of(registry.reg(), *field)
-- rewrite `substrate_crypto_light::ecdsa::SIGNATURE_LEN` => `vx_len_signature_ecdsa()` ?
-- rewrite `substrate_crypto_light::ed25519::SIGNATURE_LEN` => `vx_len_signature_ed25519()` ?
-- rewrite `substrate_crypto_light::sr25519::SIGNATURE_LEN` => `vx_len_signature_sr25519()` ?
== fn SpecialtyTypeChecked::from_type
-- start
    proof { broadcast use axiom_vec_bc; pattern_may_be_missed(); }
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            clean(old(ext_memory).faults(), final(ext_memory).faults()),
            !(r is None) ==> final(ext_memory).faults() == old(ext_memory).faults(),
            if r is None { *final(position) == *old(position) } else { kept(*old(position), *final(position), data.bytes()) },
            final(ext_memory).faults() == old(ext_memory).faults() ==> (r, *final(position) as int) == seen(registry.reg(), data.bytes(), *old(position) as int, *ty)
