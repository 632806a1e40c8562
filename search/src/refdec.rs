//! Independent reference decoder: the functional meaning of a registered type.
use crate::util::*;
use bitvec::prelude::{BitVec, Lsb0, Msb0};
use num_bigint::{BigInt, BigUint, Sign};
use primitive_types::{H160, H256, H512};
use scale_info::{form::PortableForm, Field, TypeDef, TypeDefPrimitive as P, Variant};
use sp_arithmetic::{PerThing, PerU16, Perbill, Percent, Permill, Perquintill};
use std::cell::Cell;
use std::collections::BTreeMap;
use substrate_crypto_light::{
    common::AccountId32,
    ecdsa::{Public as PubEc, Signature as SigEc},
    ed25519::{Public as PubEd, Signature as SigEd},
    sr25519::{Public as PubSr, Signature as SigSr},
};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::*;
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger as SU};

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Role {
    None,
    Spec,
    Tx,
    Genesis,
    Block,
    Nonce,
    TipAsset,
    Tip,
    Balance,
    SpecName,
}
impl Role {
    pub fn int(self) -> SU {
        match self {
            Role::Spec => SU::SpecVersion,
            Role::Tx => SU::TxVersion,
            Role::Nonce => SU::Nonce,
            Role::Tip => SU::Tip,
            Role::TipAsset => SU::TipAsset,
            Role::Balance => SU::Balance,
            _ => SU::None,
        }
    }
    pub fn of_ext(ident: &str) -> Role {
        match ident {
            "CheckSpecVersion" => Role::Spec,
            "CheckTxVersion" => Role::Tx,
            "CheckGenesis" => Role::Genesis,
            "CheckMortality" => Role::Block,
            "CheckNonce" => Role::Nonce,
            "ChargeAssetTxPayment" => Role::TipAsset,
            "ChargeTransactionPayment" => Role::Tip,
            _ => Role::None,
        }
    }
    pub fn of_tuple_member(ident: Option<&String>) -> Role {
        match ident.map(|s| s.as_str()) {
            Some("CheckNonce") => Role::Nonce,
            Some("ChargeAssetTxPayment") => Role::TipAsset,
            Some("ChargeTransactionPayment") => Role::Tip,
            _ => Role::None,
        }
    }
    pub fn of_field(f: &Field<PortableForm>) -> Role {
        match f.name.as_deref() {
            Some("nonce") => return Role::Nonce,
            Some("spec_version") => return Role::Spec,
            Some("spec_name") => return Role::SpecName,
            Some("tx_version") | Some("transaction_version") => return Role::Tx,
            _ => {}
        }
        const BAL: [&str; 7] = [
            "Balance", "BalanceOf<T>", "BalanceOf<T, I>", "DepositBalance", "ExtendedBalance", "PalletBalanceOf<T>", "T::Balance",
        ];
        match f.type_name.as_deref() {
            Some(t) if BAL.iter().any(|b| *b == t) => Role::Balance,
            _ => Role::None,
        }
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum RErr {
    Cyclic,
    /// something not allowed inside compact type; flag: error has to be exactly that (not a vector)
    Compact(u32, bool),
    Data,
    Registry,
    Fuel,
}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Known {
    AccountId32,
    Era,
    H160,
    H256,
    H512,
    MultiSig,
    Call,
    Event,
    Perbill,
    Percent,
    Permill,
    Perquintill,
    PerU16,
    PubEd,
    PubSr,
    PubEc,
    SigEd,
    SigSr,
    SigEc,
    Xt,
}

/// Well-known type by registered path.
pub fn known(ty: &Ty) -> Option<Known> {
    let segs: Vec<&str> = ty.path.segments.iter().map(|s| s.as_str()).collect();
    let (last, ns) = segs.split_last()?;
    Some(match (*last, ns) {
        ("AccountId32", _) => Known::AccountId32,
        ("Era", _) => Known::Era,
        ("H160", _) | ("AccountId20", _) => Known::H160,
        ("H256", _) => Known::H256,
        ("H512", _) => Known::H512,
        ("MultiSignature", _) => Known::MultiSig,
        ("Call", _) | ("RuntimeCall", _) => Known::Call,
        ("Event", _) | ("RuntimeEvent", _) => Known::Event,
        ("Perbill", _) => Known::Perbill,
        ("Percent", _) => Known::Percent,
        ("Permill", _) => Known::Permill,
        ("Perquintill", _) => Known::Perquintill,
        ("PerU16", _) => Known::PerU16,
        ("Public", ["sp_core", "ed25519"]) => Known::PubEd,
        ("Public", ["sp_core", "sr25519"]) => Known::PubSr,
        ("Public", ["sp_core", "ecdsa"]) => Known::PubEc,
        ("Signature", ["sp_core", "ed25519"]) => Known::SigEd,
        ("Signature", ["sp_core", "sr25519"]) => Known::SigSr,
        ("Signature", ["sp_core", "ecdsa"]) => Known::SigEc,
        ("UncheckedExtrinsic", ["sp_runtime", "generic", "unchecked_extrinsic"]) => Known::Xt,
        _ => return None,
    })
}

/// Canonical SCALE compact: (value, bytes used) or nothing.
pub fn compact(b: &[u8], max: u128) -> Option<(u128, usize)> {
    let first = *b.first()?;
    let (v, used, min): (u128, usize, u128) = match first & 3 {
        0 => ((first >> 2) as u128, 1, 0),
        1 => (u16::from_le_bytes(b.get(0..2)?.try_into().unwrap()) as u128 >> 2, 2, 1 << 6),
        2 => (u32::from_le_bytes(b.get(0..4)?.try_into().unwrap()) as u128 >> 2, 4, 1 << 14),
        _ => {
            let n = (first >> 2) as usize + 4;
            let raw = b.get(1..1 + n)?;
            if n > 16 {
                return None;
            }
            let mut v = 0u128;
            for x in raw.iter().rev() {
                v = (v << 8) | *x as u128;
            }
            let min = if n == 4 { 1u128 << 30 } else { 1u128 << (8 * (n - 1)) };
            (v, n + 1, min)
        }
    };
    if v < min || v > max {
        None
    } else {
        Some((v, used))
    }
}

/// Canonical SCALE compact encoding.
pub fn enc_compact(v: u128) -> Vec<u8> {
    if v < 1 << 6 {
        vec![(v as u8) << 2]
    } else if v < 1 << 14 {
        (((v as u16) << 2) | 1).to_le_bytes().to_vec()
    } else if v < 1 << 30 {
        (((v as u32) << 2) | 2).to_le_bytes().to_vec()
    } else {
        let mut raw: Vec<u8> = v.to_le_bytes().to_vec();
        while raw.len() > 4 && *raw.last().unwrap() == 0 {
            raw.pop();
        }
        let mut out = vec![(((raw.len() - 4) as u8) << 2) | 3];
        out.extend_from_slice(&raw);
        out
    }
}

/// Era by the rule of the chain.
pub fn era(b: &[u8]) -> Option<(Era, usize)> {
    let b0 = *b.first()?;
    if b0 == 0 {
        return Some((Era::Immortal, 1));
    }
    let b1 = *b.get(1)?;
    let e = b0 as u64 + 256 * b1 as u64;
    let period = 1u64 << (1 + e % 16);
    let q = std::cmp::max(1, period / 4096);
    let phase = (e / 16) * q;
    if period < 4 || phase >= period {
        return None;
    }
    Some((Era::Mortal(period, phase), 2))
}

#[derive(Clone)]
pub struct St {
    pub compact: Option<u32>,
    pub role: Role,
    pub seen: Vec<u32>,
}
impl St {
    pub fn new() -> St {
        St { compact: None, role: Role::None, seen: vec![] }
    }
    pub fn role(role: Role) -> St {
        St { compact: None, role, seen: vec![] }
    }
    fn visit(&mut self, id: u32) -> Result<(), RErr> {
        if self.seen.contains(&id) {
            return Err(RErr::Cyclic);
        }
        self.seen.push(id);
        Ok(())
    }
    fn no_compact(&self) -> Result<(), RErr> {
        match self.compact {
            Some(id) => Err(RErr::Compact(id, true)),
            None => Ok(()),
        }
    }
}

pub struct Dec<'a> {
    pub reg: &'a BTreeMap<u32, Ty>,
    pub b: &'a [u8],
    pub fuel: Cell<usize>,
    /// special routes hit, for coverage accounting
    pub hits: Cell<u64>,
}
type R<T> = Result<T, RErr>;

pub fn docs(d: &[String]) -> String {
    let mut out = String::new();
    for (i, l) in d.iter().enumerate() {
        if i > 0 {
            out.push('\n')
        }
        out.push_str(l)
    }
    out
}
pub fn info(ty: &Ty) -> Info {
    Info { docs: docs(&ty.docs), path: ty.path.clone() }
}
fn push_info(v: &mut Vec<Info>, ty: &Ty) {
    if !(ty.path.segments.is_empty() && docs(&ty.docs).is_empty()) {
        v.push(info(ty))
    }
}

impl<'a> Dec<'a> {
    pub fn new(reg: &'a BTreeMap<u32, Ty>, b: &'a [u8]) -> Self {
        Dec { reg, b, fuel: Cell::new(90_000), hits: Cell::new(0) }
    }
    fn hit(&self, k: u32) {
        self.hits.set(self.hits.get() | (1u64 << (k & 63)));
    }
    fn burn(&self) -> R<()> {
        let f = self.fuel.get();
        if f == 0 {
            return Err(RErr::Fuel);
        }
        self.fuel.set(f - 1);
        Ok(())
    }
    fn ty(&self, id: u32) -> R<&'a Ty> {
        self.reg.get(&id).ok_or(RErr::Registry)
    }
    fn cut(&self, pos: &mut usize, n: usize) -> R<&'a [u8]> {
        let s = self.b.get(*pos..pos.checked_add(n).ok_or(RErr::Data)?).ok_or(RErr::Data)?;
        *pos += n;
        Ok(s)
    }
    fn compact(&self, pos: &mut usize, max: u128) -> R<u128> {
        let rest = self.b.get(*pos..).ok_or(RErr::Data)?;
        let (v, n) = compact(rest, max).ok_or(RErr::Data)?;
        *pos += n;
        Ok(v)
    }
    fn uint(&self, pos: &mut usize, n: usize, st: &St) -> R<u128> {
        if st.compact.is_some() {
            self.hit(1);
            let max = if n == 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 };
            self.compact(pos, max)
        } else {
            let s = self.cut(pos, n)?;
            Ok(s.iter().rev().fold(0u128, |a, x| (a << 8) | *x as u128))
        }
    }
    pub fn decode(&self, id: u32, pos: &mut usize, st: St) -> R<ExtendedData> {
        let ty = self.ty(id)?;
        self.value(ty, id, pos, st, Vec::new())
    }
    fn fields(&self, fields: &[Field<PortableForm>], pos: &mut usize, mut st: St) -> R<Vec<FieldData>> {
        if fields.len() > 1 {
            st.no_compact()?;
            if st.role != Role::TipAsset {
                st.role = Role::None
            }
        }
        let mut out = vec![];
        for f in fields {
            let mut s = st.clone();
            if s.role == Role::None {
                s.role = Role::of_field(f)
            }
            s.visit(f.ty.id)?;
            out.push(FieldData {
                field_name: f.name.clone(),
                type_name: f.type_name.clone(),
                field_docs: docs(&f.docs),
                data: self.decode(f.ty.id, pos, s)?,
            })
        }
        Ok(out)
    }
    fn variant<'v>(&self, vs: &'v [Variant<PortableForm>], pos: &mut usize) -> R<(&'v Variant<PortableForm>, Vec<FieldData>)> {
        let i = self.cut(pos, 1)?[0];
        let v = vs.iter().find(|v| v.index == i).ok_or(RErr::Data)?;
        Ok((v, self.fields(&v.fields, pos, St::new())?))
    }
    /// What vector elements really are, behind wrappers.
    fn husk(&self, id: u32, mut st: St) -> R<(&'a Ty, u32, St, Vec<Info>)> {
        st.visit(id)?;
        st.compact = None;
        st.role = Role::None;
        let mut id = id;
        let mut ty = self.ty(id)?;
        let mut infos = vec![];
        loop {
            self.burn()?;
            push_info(&mut infos, ty);
            if known(ty).is_some() {
                return Ok((ty, id, st, infos));
            }
            match &ty.type_def {
                TypeDef::Composite(c) if c.fields.len() == 1 => {
                    id = c.fields[0].ty.id;
                    st.visit(id)?;
                    ty = self.ty(id)?;
                    if st.role == Role::None {
                        st.role = Role::of_field(&c.fields[0])
                    }
                }
                TypeDef::Compact(c) => {
                    st.no_compact()?;
                    st.compact = Some(id);
                    id = c.type_param.id;
                    st.visit(id)?;
                    ty = self.ty(id)?;
                }
                _ => return Ok((ty, id, st, infos)),
            }
        }
    }
    fn elements(&self, id: u32, n: usize, pos: &mut usize, st: St, vec: bool) -> R<ParsedData> {
        if let Some(id) = st.compact {
            return Err(RErr::Compact(id, !vec));
        }
        let (ty, id, st, element_info) = self.husk(id, st)?;
        let mut data = vec![];
        for _ in 0..n {
            data.push(self.value(ty, id, pos, st.clone(), vec![])?.data)
        }
        Ok(group(element_info, data))
    }
    fn signature(&self, f: &Field<PortableForm>) -> R<Option<Known>> {
        let (k, len) = match f.type_name.as_deref() {
            Some("ecdsa::Signature") => (Known::SigEc, 65),
            Some("ed25519::Signature") => (Known::SigEd, 64),
            Some("sr25519::Signature") => (Known::SigSr, 64),
            _ => return Ok(None),
        };
        let (ty, _, st, _) = match self.husk(f.ty.id, St::new()) {
            Ok(a) => a,
            Err(RErr::Fuel) => return Err(RErr::Fuel),
            Err(_) => return Ok(None),
        };
        if st.compact.is_some() {
            return Ok(None);
        }
        if let TypeDef::Array(a) = &ty.type_def {
            if a.len == len {
                if let Some(e) = self.reg.get(&a.type_param.id) {
                    if e.type_def == TypeDef::Primitive(P::U8) {
                        return Ok(Some(k));
                    }
                }
            }
        }
        Ok(None)
    }
    fn value(&self, ty: &'a Ty, id: u32, pos: &mut usize, mut st: St, mut infos: Vec<Info>) -> R<ExtendedData> {
        self.burn()?;
        push_info(&mut infos, ty);
        let k = known(ty);
        let data = match k {
            Some(Known::MultiSig) => {
                let sig = match (&ty.type_def, self.b.get(*pos)) {
                    (TypeDef::Variant(vs), Some(i)) => match vs.variants.iter().find(|v| v.index == *i) {
                        Some(v) if v.fields.len() == 1 => self.signature(&v.fields[0])?,
                        _ => None,
                    },
                    _ => None,
                };
                match sig {
                    Some(k) => {
                        self.hit(2);
                        st.no_compact()?;
                        *pos += 1;
                        Some(self.leaf(k, pos, &st)?)
                    }
                    None => None,
                }
            }
            Some(kc @ (Known::Call | Known::Event)) => {
                let mut out = None;
                if let (TypeDef::Variant(vs), Some(i)) = (&ty.type_def, self.b.get(*pos)) {
                    if let Some(v) = vs.variants.iter().find(|v| v.index == *i) {
                        if v.fields.len() == 1 {
                            if let Some(inner) = self.reg.get(&v.fields[0].ty.id) {
                                if known(inner) == Some(kc) {
                                    if let TypeDef::Variant(ivs) = &inner.type_def {
                                        self.hit(3);
                                        st.no_compact()?;
                                        *pos += 1;
                                        let (iv, fields) = self.variant(&ivs.variants, pos)?;
                                        let d = PalletSpecificData {
                                            pallet_info: info(inner),
                                            variant_docs: docs(&iv.docs),
                                            pallet_name: v.name.clone(),
                                            variant_name: iv.name.clone(),
                                            fields,
                                        };
                                        out = Some(if kc == Known::Call { ParsedData::Call(Call(d)) } else { ParsedData::Event(Event(d)) });
                                    }
                                }
                            }
                        }
                    }
                }
                out
            }
            Some(Known::Xt) | None => None,
            Some(k) => Some(self.leaf(k, pos, &st)?),
        };
        if let Some(data) = data {
            return Ok(ExtendedData { data, info: infos });
        }
        let data = match &ty.type_def {
            TypeDef::Composite(c) => ParsedData::Composite(self.fields(&c.fields, pos, st)?),
            TypeDef::Variant(v) => {
                st.no_compact()?;
                if v.variants.is_empty() {
                    ParsedData::EmptyEnum
                } else {
                    let (v, fields) = self.variant(&v.variants, pos)?;
                    ParsedData::Variant(VariantData { variant_name: v.name.clone(), variant_docs: docs(&v.docs), fields })
                }
            }
            TypeDef::Sequence(s) => {
                let n = self.compact(pos, u32::MAX as u128)? as usize;
                st.seen.clear();
                self.elements(s.type_param.id, n, pos, st, true)?
            }
            TypeDef::Array(a) => self.elements(a.type_param.id, a.len as usize, pos, st, false)?,
            TypeDef::Tuple(t) => {
                if t.fields.len() > 1 {
                    st.no_compact()?;
                    if st.role != Role::TipAsset {
                        st.role = Role::None
                    }
                }
                let mut out = vec![];
                for f in &t.fields {
                    let inner = self.ty(f.id)?;
                    let mut s = st.clone();
                    s.visit(f.id)?;
                    if s.role == Role::None {
                        s.role = Role::of_tuple_member(inner.path.segments.last())
                    }
                    out.push(self.value(inner, f.id, pos, s, vec![])?)
                }
                ParsedData::Tuple(out)
            }
            TypeDef::Primitive(p) => self.prim(p, pos, &st)?,
            TypeDef::Compact(c) => {
                st.no_compact()?;
                st.compact = Some(id);
                st.visit(c.type_param.id)?;
                let inner = self.ty(c.type_param.id)?;
                return self.value(inner, c.type_param.id, pos, st, infos);
            }
            TypeDef::BitSequence(bs) => {
                st.no_compact()?;
                let order = self.ty(bs.bit_order_type.id)?;
                let msb = match (&order.type_def, order.path.segments.last().map(|x| x.as_str())) {
                    (TypeDef::Composite(_), Some("Lsb0")) => false,
                    (TypeDef::Composite(_), Some("Msb0")) => true,
                    _ => return Err(RErr::Registry),
                };
                let store = self.ty(bs.bit_store_type.id)?;
                let w = match store.type_def {
                    TypeDef::Primitive(P::U8) => 1,
                    TypeDef::Primitive(P::U16) => 2,
                    TypeDef::Primitive(P::U32) => 4,
                    TypeDef::Primitive(P::U64) => 8,
                    _ => return Err(RErr::Registry),
                };
                let bits = self.bits(pos, w, msb)?;
                macro_rules! mk {
                    ($v:ident, $t:ty, $o:ty) => {
                        ParsedData::$v(bits.iter().copied().collect::<BitVec<$t, $o>>())
                    };
                }
                match (w, msb) {
                    (1, false) => mk!(BitVecU8Lsb0, u8, Lsb0),
                    (2, false) => mk!(BitVecU16Lsb0, u16, Lsb0),
                    (4, false) => mk!(BitVecU32Lsb0, u32, Lsb0),
                    (8, false) => mk!(BitVecU64Lsb0, u64, Lsb0),
                    (1, true) => mk!(BitVecU8Msb0, u8, Msb0),
                    (2, true) => mk!(BitVecU16Msb0, u16, Msb0),
                    (4, true) => mk!(BitVecU32Msb0, u32, Msb0),
                    _ => mk!(BitVecU64Msb0, u64, Msb0),
                }
            }
        };
        Ok(ExtendedData { data, info: infos })
    }
    /// Bits of a sequence with `w` byte store elements.
    pub fn bits(&self, pos: &mut usize, w: usize, msb: bool) -> R<Vec<bool>> {
        let n = self.compact(pos, u32::MAX as u128)? as usize;
        let elements = n.div_ceil(8 * w);
        let raw = self.cut(pos, elements * w)?;
        Ok((0..n)
            .map(|i| {
                let e = i / (8 * w);
                let mut el = 0u64;
                for k in (0..w).rev() {
                    el = (el << 8) | raw[e * w + k] as u64
                }
                let b = i % (8 * w);
                let sh = if msb { 8 * w - 1 - b } else { b };
                (el >> sh) & 1 == 1
            })
            .collect())
    }
    pub fn prim(&self, p: &P, pos: &mut usize, st: &St) -> R<ParsedData> {
        let specialty = st.role.int();
        if !matches!(p, P::U8 | P::U16 | P::U32 | P::U64 | P::U128) {
            st.no_compact()?;
        }
        macro_rules! int {
            ($n:expr, $t:ty) => {
                <$t>::from_le_bytes(self.cut(pos, $n)?.try_into().unwrap())
            };
        }
        let p0 = *pos;
        let out = match p {
            P::Bool => match self.cut(pos, 1)?[0] {
                0 => Ok(ParsedData::PrimitiveBool(false)),
                1 => Ok(ParsedData::PrimitiveBool(true)),
                _ => Err(RErr::Data),
            },
            P::Char => {
                let v = int!(4, u32);
                if v >= 0x110000 || (0xd800..0xe000).contains(&v) {
                    Err(RErr::Data)
                } else {
                    Ok(ParsedData::PrimitiveChar(char::from_u32(v).unwrap()))
                }
            }
            P::Str => {
                let mut q = *pos;
                let n = self.compact(&mut q, u32::MAX as u128)? as usize;
                let raw = self.cut(&mut q, n)?;
                match std::str::from_utf8(raw) {
                    Ok(s) => {
                        *pos = q;
                        Ok(ParsedData::Text {
                            text: s.to_string(),
                            specialty: if st.role == Role::SpecName { SpecialtyStr::SpecName } else { SpecialtyStr::None },
                        })
                    }
                    Err(_) => Err(RErr::Data),
                }
            }
            P::U8 => Ok(ParsedData::PrimitiveU8 { value: self.uint(pos, 1, st)? as u8, specialty }),
            P::U16 => Ok(ParsedData::PrimitiveU16 { value: self.uint(pos, 2, st)? as u16, specialty }),
            P::U32 => Ok(ParsedData::PrimitiveU32 { value: self.uint(pos, 4, st)? as u32, specialty }),
            P::U64 => Ok(ParsedData::PrimitiveU64 { value: self.uint(pos, 8, st)? as u64, specialty }),
            P::U128 => Ok(ParsedData::PrimitiveU128 { value: self.uint(pos, 16, st)?, specialty }),
            P::U256 => {
                let s = self.cut(pos, 32)?;
                let mut be = s.to_vec();
                be.reverse();
                Ok(ParsedData::PrimitiveU256(BigUint::from_bytes_be(&be)))
            }
            P::I8 => Ok(ParsedData::PrimitiveI8(int!(1, i8))),
            P::I16 => Ok(ParsedData::PrimitiveI16(int!(2, i16))),
            P::I32 => Ok(ParsedData::PrimitiveI32(int!(4, i32))),
            P::I64 => Ok(ParsedData::PrimitiveI64(int!(8, i64))),
            P::I128 => Ok(ParsedData::PrimitiveI128(int!(16, i128))),
            P::I256 => {
                let s = self.cut(pos, 32)?;
                let mut be = s.to_vec();
                be.reverse();
                let u = BigInt::from_bytes_be(Sign::Plus, &be);
                let v = if s[31] >= 0x80 { u - (BigInt::from(1) << 256) } else { u };
                Ok(ParsedData::PrimitiveI256(v))
            }
        };
        if out.is_err() {
            *pos = p0
        }
        out
    }
    fn leaf(&self, k: Known, pos: &mut usize, st: &St) -> R<ParsedData> {
        self.hit(10 + k as u32);
        macro_rules! per {
            ($t:ident, $n:expr) => {{
                let v = self.uint(pos, $n, st)?;
                if st.compact.is_some() {
                    // compact parts saturate at one whole
                    let whole = <$t as PerThing>::ACCURACY as u128;
                    ParsedData::$t(<$t as PerThing>::from_parts(v.min(whole).try_into().unwrap()))
                } else {
                    // fixed width parts are rejected when above one whole
                    let raw = (v as u128).to_le_bytes();
                    ParsedData::$t(parity_scale_codec::Decode::decode(&mut &raw[..$n]).map_err(|_| RErr::Data)?)
                }
            }};
        }
        match k {
            Known::Perbill => return Ok(per!(Perbill, 4)),
            Known::Percent => return Ok(per!(Percent, 1)),
            Known::Permill => return Ok(per!(Permill, 4)),
            Known::Perquintill => return Ok(per!(Perquintill, 8)),
            Known::PerU16 => return Ok(per!(PerU16, 2)),
            _ => {}
        }
        st.no_compact()?;
        macro_rules! arr {
            ($n:expr) => {
                self.cut(pos, $n)?.try_into().unwrap()
            };
        }
        Ok(match k {
            Known::AccountId32 => ParsedData::Id(AccountId32(arr!(32))),
            Known::Era => {
                let (e, n) = era(self.b.get(*pos..).ok_or(RErr::Data)?).ok_or(RErr::Data)?;
                *pos += n;
                ParsedData::Era(e)
            }
            Known::H160 => ParsedData::H160(H160(arr!(20))),
            Known::H256 => {
                let h = H256(arr!(32));
                match st.role {
                    Role::Genesis => ParsedData::GenesisHash(h),
                    Role::Block => ParsedData::BlockHash(h),
                    _ => ParsedData::H256(h),
                }
            }
            Known::H512 => ParsedData::H512(H512(arr!(64))),
            Known::PubEd => ParsedData::PublicEd25519(PubEd(arr!(32))),
            Known::PubSr => ParsedData::PublicSr25519(PubSr(arr!(32))),
            Known::PubEc => ParsedData::PublicEcdsa(PubEc(arr!(33))),
            Known::SigEd => ParsedData::SignatureEd25519(SigEd(arr!(64))),
            Known::SigSr => ParsedData::SignatureSr25519(SigSr(arr!(64))),
            Known::SigEc => ParsedData::SignatureEcdsa(SigEc(arr!(65))),
            _ => unreachable!(),
        })
    }
}

/// How a collection is shown.
pub fn group(element_info: Vec<Info>, data: Vec<ParsedData>) -> ParsedData {
    macro_rules! nums {
        ($v:ident, $s:ident) => {{
            let all: Option<Vec<_>> = data
                .iter()
                .map(|x| match x {
                    ParsedData::$v { value, specialty: SU::None } => Some(*value),
                    _ => None,
                })
                .collect();
            if let Some(all) = all {
                return ParsedData::Sequence(SequenceData { element_info, data: Sequence::$s(all) });
            }
        }};
    }
    match data.first() {
        Some(ParsedData::PrimitiveU8 { .. }) => nums!(PrimitiveU8, U8),
        Some(ParsedData::PrimitiveU16 { .. }) => nums!(PrimitiveU16, U16),
        Some(ParsedData::PrimitiveU32 { .. }) => nums!(PrimitiveU32, U32),
        Some(ParsedData::PrimitiveU64 { .. }) => nums!(PrimitiveU64, U64),
        Some(ParsedData::PrimitiveU128 { .. }) => nums!(PrimitiveU128, U128),
        Some(ParsedData::Sequence(SequenceData { element_info: inner, data: Sequence::U8(_) })) => {
            let inner = inner.clone();
            let all: Option<Vec<Vec<u8>>> = data
                .iter()
                .map(|x| match x {
                    ParsedData::Sequence(SequenceData { element_info: i, data: Sequence::U8(b) }) if *i == inner => Some(b.clone()),
                    ParsedData::SequenceRaw(r) if r.data.is_empty() => Some(vec![]),
                    _ => None,
                })
                .collect();
            if let Some(sequence) = all {
                return ParsedData::Sequence(SequenceData {
                    element_info,
                    data: Sequence::VecU8 { sequence, inner_element_info: inner },
                });
            }
        }
        _ => {}
    }
    ParsedData::SequenceRaw(SequenceRawData { element_info, data })
}

/// What to disregard when comparing decoded trees.
#[derive(Clone, Copy)]
pub struct Norm {
    pub roles: bool,
    pub groups: bool,
    pub calls: bool,
}
impl Norm {
    pub const NONE: Norm = Norm { roles: false, groups: false, calls: false };
    pub fn ext(self, e: &ExtendedData) -> ExtendedData {
        ExtendedData { data: self.data(&e.data), info: e.info.clone() }
    }
    fn fields(self, f: &[FieldData]) -> Vec<FieldData> {
        f.iter().map(|f| FieldData { data: self.ext(&f.data), ..f.clone() }).collect()
    }
    fn shown(self, kind: &str, d: &PalletSpecificData) -> ParsedData {
        let _ = kind;
        // names and documentation, as in a plain enum inside an enum
        ParsedData::Tuple(vec![
            ext0(ParsedData::Text { text: d.pallet_name.clone(), specialty: SpecialtyStr::None }),
            ext0(ParsedData::Text { text: d.variant_name.clone(), specialty: SpecialtyStr::None }),
            ExtendedData {
                data: ParsedData::Text { text: d.variant_docs.clone(), specialty: SpecialtyStr::None },
                info: if d.pallet_info.docs.is_empty() && d.pallet_info.path.segments.is_empty() { vec![] } else { vec![d.pallet_info.clone()] },
            },
            ext0(ParsedData::Composite(self.fields(&d.fields))),
        ])
    }
    pub fn data(self, p: &ParsedData) -> ParsedData {
        use ParsedData as D;
        macro_rules! int {
            ($v:ident, $value:ident, $s:ident) => {
                D::$v { value: *$value, specialty: if self.roles { SU::None } else { *$s } }
            };
        }
        match p {
            D::PrimitiveU8 { value, specialty } => int!(PrimitiveU8, value, specialty),
            D::PrimitiveU16 { value, specialty } => int!(PrimitiveU16, value, specialty),
            D::PrimitiveU32 { value, specialty } => int!(PrimitiveU32, value, specialty),
            D::PrimitiveU64 { value, specialty } => int!(PrimitiveU64, value, specialty),
            D::PrimitiveU128 { value, specialty } => int!(PrimitiveU128, value, specialty),
            D::GenesisHash(h) | D::BlockHash(h) if self.roles => D::H256(*h),
            D::Text { text, .. } if self.roles => D::Text { text: text.clone(), specialty: SpecialtyStr::None },
            D::Composite(f) => D::Composite(self.fields(f)),
            D::Tuple(t) => D::Tuple(t.iter().map(|x| self.ext(x)).collect()),
            D::Variant(v) => {
                if self.calls && v.fields.len() == 1 {
                    if let D::Variant(i) = &v.fields[0].data.data {
                        return self.shown(
                            "",
                            &PalletSpecificData {
                                pallet_info: v.fields[0]
                                    .data
                                    .info
                                    .first()
                                    .cloned()
                                    .unwrap_or(Info { docs: String::new(), path: Default::default() }),
                                variant_docs: i.variant_docs.clone(),
                                pallet_name: v.variant_name.clone(),
                                variant_name: i.variant_name.clone(),
                                fields: i.fields.clone(),
                            },
                        );
                    }
                }
                D::Variant(VariantData { variant_name: v.variant_name.clone(), variant_docs: v.variant_docs.clone(), fields: self.fields(&v.fields) })
            }
            D::Call(Call(d)) if self.calls => self.shown("", d),
            D::Event(Event(d)) if self.calls => self.shown("", d),
            D::Call(Call(d)) => D::Call(Call(PalletSpecificData { fields: self.fields(&d.fields), ..d.clone() })),
            D::Event(Event(d)) => D::Event(Event(PalletSpecificData { fields: self.fields(&d.fields), ..d.clone() })),
            D::SequenceRaw(s) => D::SequenceRaw(SequenceRawData {
                element_info: s.element_info.clone(),
                data: s.data.iter().map(|x| self.data(x)).collect(),
            }),
            D::Sequence(s) if self.groups => expand(s),
            other => other.clone(),
        }
    }
}
pub fn ext0(data: ParsedData) -> ExtendedData {
    ExtendedData { data, info: vec![] }
}
/// A typed collection as the general list of its elements.
pub fn expand(s: &SequenceData) -> ParsedData {
    macro_rules! up {
        ($v:ident, $x:ident) => {
            $x.iter().map(|v| ParsedData::$v { value: *v, specialty: SU::None }).collect()
        };
    }
    let data: Vec<ParsedData> = match &s.data {
        Sequence::U8(x) => up!(PrimitiveU8, x),
        Sequence::U16(x) => up!(PrimitiveU16, x),
        Sequence::U32(x) => up!(PrimitiveU32, x),
        Sequence::U64(x) => up!(PrimitiveU64, x),
        Sequence::U128(x) => up!(PrimitiveU128, x),
        Sequence::VecU8 { sequence, inner_element_info } => sequence
            .iter()
            .map(|b| {
                ParsedData::SequenceRaw(SequenceRawData {
                    element_info: inner_element_info.clone(),
                    data: b.iter().map(|v| ParsedData::PrimitiveU8 { value: *v, specialty: SU::None }).collect(),
                })
            })
            .collect(),
    };
    ParsedData::SequenceRaw(SequenceRawData { element_info: s.element_info.clone(), data })
}

/// Tree of node kinds without values.
pub fn skeleton(p: &ParsedData) -> String {
    use ParsedData as D;
    let fs = |f: &[FieldData]| f.iter().map(|f| skeleton(&f.data.data)).collect::<Vec<_>>().join(",");
    match p {
        D::Composite(f) => format!("Composite({})", fs(f)),
        D::Tuple(t) => format!("Tuple({})", t.iter().map(|x| skeleton(&x.data)).collect::<Vec<_>>().join(",")),
        D::Variant(v) => format!("Variant:{}({})", v.variant_name, fs(&v.fields)),
        D::Call(Call(d)) => format!("Call:{}:{}({})", d.pallet_name, d.variant_name, fs(&d.fields)),
        D::Event(Event(d)) => format!("Event:{}:{}({})", d.pallet_name, d.variant_name, fs(&d.fields)),
        D::Sequence(s) => skeleton(&expand(s)),
        D::SequenceRaw(s) => format!("Seq[{}]", s.data.iter().map(skeleton).collect::<Vec<_>>().join(",")),
        D::GenesisHash(_) | D::BlockHash(_) => "H256".to_string(),
        other => {
            let s = format!("{other:?}");
            let cut = s.find(|c: char| !c.is_alphanumeric()).unwrap_or(s.len());
            s[..cut].to_string()
        }
    }
}
