//! C19: flat cards of decoded trees, rendered independently.
use crate::gen::*;
use crate::props::*;

use crate::dict;
use crate::util::*;
use crate::{bad, Cov, Res};
use bitvec::prelude::{BitVec, Lsb0, Msb0};
use num_bigint::{BigInt, BigUint};
use primitive_types::{H160, H256, H512};
use sp_arithmetic::{PerU16, Perbill, Percent, Permill, Perquintill};
use substrate_crypto_light::{
    common::{AccountId32, AsBase58},
    ecdsa::{Public as PubEc, Signature as SigEc},
    ed25519::{Public as PubEd, Signature as SigEd},
    sr25519::{Public as PubSr, Signature as SigSr},
};
use substrate_parser::additional_types::Era;
use substrate_parser::cards::*;
use substrate_parser::error::SignableError;
use substrate_parser::printing_balance::AsBalance;
use substrate_parser::special_indicators::{SpecialtyStr, SpecialtyUnsignedInteger as SU};
use substrate_parser::{ShortSpecs, TransactionParsed, TransactionUnmarkedParsed};

struct Ctx<'a> {
    specs: &'a ShortSpecs,
    name: &'a str,
    out: Vec<(u32, String)>,
}
fn text(b: &[u8]) -> String {
    format!("bytes {} {:?}", hex::encode(b), std::str::from_utf8(b).ok())
}
impl Ctx<'_> {
    fn put(&mut self, indent: u32, s: String) {
        self.out.push((indent, s))
    }
    fn num<T: AsBalance + std::fmt::Display + Copy>(&mut self, kind: &str, v: T, s: &SU, indent: u32, show: bool) {
        let money = |k: &str, this: &Ctx| {
            let c = T::convert_balance_pretty(v, this.specs.decimals, &this.specs.unit);
            format!("{k} {} {}", c.number, c.units)
        };
        let line = match s {
            SU::None => format!("{kind} {v}"),
            SU::Balance if show => money("Balance", self),
            SU::Balance => format!("BalanceRaw {v}"),
            SU::Tip => money("Tip", self),
            SU::TipAsset => format!("TipAsset {v}"),
            SU::Nonce => format!("Nonce {v}"),
            SU::SpecVersion => format!("NameSpecVersion {:?} {v}", self.name),
            SU::TxVersion => format!("TxVersion {v}"),
        };
        self.put(indent, line)
    }
    fn fields(&mut self, f: &[FieldData], indent: u32, show: bool) {
        for (i, x) in f.iter().enumerate() {
            match &x.field_name {
                Some(n) => self.put(indent, format!("FieldName {n:?}")),
                None => self.put(indent, format!("FieldNumber {}", i + 1)),
            }
            self.data(&x.data.data, indent + 1, show)
        }
    }
    fn content(&mut self, f: &[FieldData], indent: u32, show: bool) {
        match f {
            [one] if one.field_name.is_none() => self.data(&one.data.data, indent, show),
            _ => self.fields(f, indent, show),
        }
    }
    fn pallet(&mut self, d: &PalletSpecificData, kind: &str, indent: u32) {
        self.put(indent, format!("PalletName {:?}", d.pallet_name));
        self.put(indent + 1, format!("{kind} {:?}", d.variant_name));
        let show = d.pallet_name == "Balances" || d.pallet_name == "Staking";
        self.content(&d.fields, indent + 2, show)
    }
    fn data(&mut self, d: &ParsedData, indent: u32, show: bool) {
        use ParsedData as D;
        let line = match d {
            D::Composite(f) if f.is_empty() => return,
            D::Composite(f) if f.len() == 1 && f[0].field_name.is_none() => return self.data(&f[0].data.data, indent, show),
            D::Composite(f) => {
                self.put(indent, format!("CompositeAnnounced {}", f.len()));
                return self.fields(f, indent + 1, show);
            }
            D::Tuple(t) if t.is_empty() => return,
            D::Tuple(t) => {
                self.put(indent, format!("TupleAnnounced {}", t.len()));
                for x in t {
                    self.data(&x.data, indent + 1, show)
                }
                return;
            }
            D::Variant(v) => {
                self.put(indent, "EnumAnnounced".into());
                self.put(indent + 1, format!("EnumVariantName {:?}", v.variant_name));
                return self.content(&v.fields, indent + 2, show);
            }
            D::Call(Call(d)) => return self.pallet(d, "CallName", indent),
            D::Event(Event(d)) => return self.pallet(d, "EventName", indent),
            D::SequenceRaw(s) => {
                self.put(indent, format!("SequenceAnnounced {}", s.data.len()));
                for x in &s.data {
                    self.data(x, indent + 1, show)
                }
                return;
            }
            D::Sequence(s) => {
                macro_rules! each {
                    ($x:ident, $k:expr) => {{
                        self.put(indent, format!("SequenceAnnounced {}", $x.len()));
                        for v in $x {
                            self.put(indent + 1, format!("{} {v}", $k))
                        }
                        return;
                    }};
                }
                match &s.data {
                    Sequence::U8(b) => text(b),
                    Sequence::U16(x) => each!(x, "u16"),
                    Sequence::U32(x) => each!(x, "u32"),
                    Sequence::U64(x) => each!(x, "u64"),
                    Sequence::U128(x) => each!(x, "u128"),
                    Sequence::VecU8 { sequence, .. } => {
                        self.put(indent, format!("SequenceAnnounced {}", sequence.len()));
                        for b in sequence {
                            self.put(indent + 1, text(b))
                        }
                        return;
                    }
                }
            }
            D::PrimitiveU8 { value, specialty } => return self.num("u8", *value, specialty, indent, show),
            D::PrimitiveU16 { value, specialty } => return self.num("u16", *value, specialty, indent, show),
            D::PrimitiveU32 { value, specialty } => return self.num("u32", *value, specialty, indent, show),
            D::PrimitiveU64 { value, specialty } => return self.num("u64", *value, specialty, indent, show),
            D::PrimitiveU128 { value, specialty } => return self.num("u128", *value, specialty, indent, show),
            D::Text { text, specialty: SpecialtyStr::None } => format!("Text {text:?}"),
            D::Text { text, specialty: SpecialtyStr::SpecName } => format!("SpecName {text:?}"),
            D::Id(x) => format!("Id {}", x.to_base58_string(self.specs.base58prefix)),
            D::PublicEd25519(x) => format!("PubEd {}", x.to_base58_string(self.specs.base58prefix)),
            D::PublicSr25519(x) => format!("PubSr {}", x.to_base58_string(self.specs.base58prefix)),
            D::PublicEcdsa(x) => format!("PubEc {}", x.to_base58_string(self.specs.base58prefix)),
            D::EmptyEnum => "EmptyEnum".into(),
            D::BitVecU8Lsb0(x) => format!("BitVecU8Lsb0 {x}"),
            D::BitVecU16Lsb0(x) => format!("BitVecU16Lsb0 {x}"),
            D::BitVecU32Lsb0(x) => format!("BitVecU32Lsb0 {x}"),
            D::BitVecU64Lsb0(x) => format!("BitVecU64Lsb0 {x}"),
            D::BitVecU8Msb0(x) => format!("BitVecU8Msb0 {x}"),
            D::BitVecU16Msb0(x) => format!("BitVecU16Msb0 {x}"),
            D::BitVecU32Msb0(x) => format!("BitVecU32Msb0 {x}"),
            D::BitVecU64Msb0(x) => format!("BitVecU64Msb0 {x}"),
            D::BlockHash(x) => format!("BlockHash {x:?}"),
            D::GenesisHash(x) => format!("GenesisHash {x:?}"),
            D::Era(x) => format!("Era {x:?}"),
            D::H160(x) => format!("H160 {x:?}"),
            D::H256(x) => format!("H256 {x:?}"),
            D::H512(x) => format!("H512 {x:?}"),
            D::PerU16(x) => format!("PerU16 {}", x.deconstruct()),
            D::Percent(x) => format!("Percent {}", x.deconstruct()),
            D::Permill(x) => format!("Permill {}", x.deconstruct()),
            D::Perbill(x) => format!("Perbill {}", x.deconstruct()),
            D::Perquintill(x) => format!("Perquintill {}", x.deconstruct()),
            D::PrimitiveBool(x) => format!("Bool {x}"),
            D::PrimitiveChar(x) => format!("Char {x:?}"),
            D::PrimitiveI8(x) => format!("i8 {x}"),
            D::PrimitiveI16(x) => format!("i16 {x}"),
            D::PrimitiveI32(x) => format!("i32 {x}"),
            D::PrimitiveI64(x) => format!("i64 {x}"),
            D::PrimitiveI128(x) => format!("i128 {x}"),
            D::PrimitiveI256(x) => format!("i256 {x}"),
            D::PrimitiveU256(x) => format!("u256 {x}"),
            D::SignatureEd25519(x) => format!("SigEd {}", hex::encode(x.0)),
            D::SignatureSr25519(x) => format!("SigSr {}", hex::encode(x.0)),
            D::SignatureEcdsa(x) => format!("SigEc {}", hex::encode(x.0)),
        };
        self.put(indent, line)
    }
}
fn line(c: &ParserCard) -> String {
    use ParserCard as C;
    match c {
        C::Balance(c) => format!("Balance {} {}", c.number, c.units),
        C::Tip(c) => format!("Tip {} {}", c.number, c.units),
        C::BalanceRaw(s) => format!("BalanceRaw {s}"),
        C::TipAsset(s) => format!("TipAsset {s}"),
        C::Nonce(s) => format!("Nonce {s}"),
        C::TxVersion(s) => format!("TxVersion {s}"),
        C::NameSpecVersion { name, version } => format!("NameSpecVersion {name:?} {version}"),
        C::BitVecU8Lsb0(x) => format!("BitVecU8Lsb0 {x}"),
        C::BitVecU16Lsb0(x) => format!("BitVecU16Lsb0 {x}"),
        C::BitVecU32Lsb0(x) => format!("BitVecU32Lsb0 {x}"),
        C::BitVecU64Lsb0(x) => format!("BitVecU64Lsb0 {x}"),
        C::BitVecU8Msb0(x) => format!("BitVecU8Msb0 {x}"),
        C::BitVecU16Msb0(x) => format!("BitVecU16Msb0 {x}"),
        C::BitVecU32Msb0(x) => format!("BitVecU32Msb0 {x}"),
        C::BitVecU64Msb0(x) => format!("BitVecU64Msb0 {x}"),
        C::BlockHash(x) => format!("BlockHash {x:?}"),
        C::GenesisHash(x) => format!("GenesisHash {x:?}"),
        C::CallName(s) => format!("CallName {s:?}"),
        C::EventName(s) => format!("EventName {s:?}"),
        C::PalletName(s) => format!("PalletName {s:?}"),
        C::CompositeAnnounced(n) => format!("CompositeAnnounced {n}"),
        C::TupleAnnounced(n) => format!("TupleAnnounced {n}"),
        C::EmptyEnum => "EmptyEnum".into(),
        C::EnumAnnounced => "EnumAnnounced".into(),
        C::EnumVariantName(s) => format!("EnumVariantName {s:?}"),
        C::FieldName(s) => format!("FieldName {s:?}"),
        C::FieldNumber(n) => format!("FieldNumber {n}"),
        C::Era(x) => format!("Era {x:?}"),
        C::H160(x) => format!("H160 {x:?}"),
        C::H256(x) => format!("H256 {x:?}"),
        C::H512(x) => format!("H512 {x:?}"),
        C::Id(x) => format!("Id {}", x.base58),
        C::PublicEd25519(x) => format!("PubEd {}", x.base58),
        C::PublicSr25519(x) => format!("PubSr {}", x.base58),
        C::PublicEcdsa(x) => format!("PubEc {}", x.base58),
        C::PerU16(x) => format!("PerU16 {}", x.deconstruct()),
        C::Percent(x) => format!("Percent {}", x.deconstruct()),
        C::Permill(x) => format!("Permill {}", x.deconstruct()),
        C::Perbill(x) => format!("Perbill {}", x.deconstruct()),
        C::Perquintill(x) => format!("Perquintill {}", x.deconstruct()),
        C::PrimitiveBool(x) => format!("Bool {x}"),
        C::PrimitiveChar(x) => format!("Char {x:?}"),
        C::PrimitiveI8(x) => format!("i8 {x}"),
        C::PrimitiveI16(x) => format!("i16 {x}"),
        C::PrimitiveI32(x) => format!("i32 {x}"),
        C::PrimitiveI64(x) => format!("i64 {x}"),
        C::PrimitiveI128(x) => format!("i128 {x}"),
        C::PrimitiveI256(x) => format!("i256 {x}"),
        C::PrimitiveU8(x) => format!("u8 {x}"),
        C::PrimitiveU16(x) => format!("u16 {x}"),
        C::PrimitiveU32(x) => format!("u32 {x}"),
        C::PrimitiveU64(x) => format!("u64 {x}"),
        C::PrimitiveU128(x) => format!("u128 {x}"),
        C::PrimitiveU256(x) => format!("u256 {x}"),
        C::SequenceAnnounced { len, .. } => format!("SequenceAnnounced {len}"),
        C::SequenceU8 { hex, text, .. } => format!("bytes {hex} {:?}", text.as_deref()),
        C::SignatureEd25519(x) => format!("SigEd {}", hex::encode(x.0)),
        C::SignatureSr25519(x) => format!("SigSr {}", hex::encode(x.0)),
        C::SignatureEcdsa(x) => format!("SigEc {}", hex::encode(x.0)),
        C::SpecName(s) => format!("SpecName {s:?}"),
        C::Text(s) => format!("Text {s:?}"),
    }
}
fn lines(c: &[ExtendedCard]) -> Vec<(u32, String)> {
    c.iter().map(|c| (c.indent, line(&c.parser_card))).collect()
}

/// Random decoded trees.
struct Tree<'r> {
    r: &'r mut Rng,
    ids: usize,
}
impl Tree<'_> {
    fn name(&mut self) -> String {
        if self.r.chance(1, 6) {
            return dict::word(self.r);
        }
        self.r.pick(&["a", "dest", "Balances", "Staking", "System", "x y", ""]).to_string()
    }
    fn su(&mut self) -> SU {
        match self.r.below(12) {
            0 => SU::Balance,
            1 => SU::Tip,
            2 => SU::TipAsset,
            3 => SU::Nonce,
            4 => SU::SpecVersion,
            5 => SU::TxVersion,
            6 => SU::Balance,
            _ => SU::None,
        }
    }
    fn info(&mut self) -> Vec<Info> {
        (0..self.r.below(3))
            .map(|k| Info { docs: if k == 0 { "d".into() } else { String::new() }, path: path(&["p", "T"]) })
            .collect()
    }
    fn fields(&mut self, d: usize) -> Vec<FieldData> {
        let mut n = *self.r.pick(&[0, 1, 1, 1, 2, 3]);
        let mut d = d;
        let mut named = 2;
        if self.r.chance(1, 400) {
            n = dict::num(self.r, 600);
            named = *self.r.pick(&[2, 30, 1000]);
            d = if n > 9 { 0 } else { d }
        }
        (0..n)
            .map(|_| FieldData {
                field_name: if self.r.chance(1, named) { Some(self.name()) } else { None },
                type_name: if self.r.chance(1, 2) { Some("T".into()) } else { None },
                field_docs: if self.r.chance(1, 4) { "fd".into() } else { String::new() },
                data: self.ext(d),
            })
            .collect()
    }
    fn ext(&mut self, d: usize) -> ExtendedData {
        ExtendedData { data: self.data(d), info: self.info() }
    }
    fn pallet(&mut self, d: usize) -> PalletSpecificData {
        PalletSpecificData {
            pallet_info: Info { docs: "x".into(), path: path(&[]) },
            variant_docs: if self.r.chance(1, 2) { "v".into() } else { String::new() },
            pallet_name: if self.r.chance(1, 6) {
                dict::word(self.r)
            } else {
                self.r.pick(&["Balances", "Staking", "System", "balances", "Balances2", "Proxy"]).to_string()
            },
            variant_name: self.name(),
            fields: self.fields(d),
        }
    }
    fn data(&mut self, d: usize) -> ParsedData {
        use ParsedData as D;
        if d > 0 && self.r.chance(2, 3) {
            let d = d - 1;
            return match self.r.below(9) {
                0 | 1 => D::Composite(self.fields(d)),
                2 => D::Tuple((0..self.r.below(4)).map(|_| self.ext(d)).collect()),
                3 | 4 => D::Variant(VariantData {
                    variant_name: self.name(),
                    variant_docs: if self.r.chance(1, 2) { "vd".into() } else { String::new() },
                    fields: self.fields(d),
                }),
                5 => D::Call(Call(self.pallet(d))),
                6 => D::Event(Event(self.pallet(d))),
                _ => D::SequenceRaw(SequenceRawData { element_info: self.info(), data: (0..self.r.below(4)).map(|_| self.data(d)).collect() }),
            };
        }
        let r = &mut self.r;
        macro_rules! h {
            ($n:expr) => {
                r.bytes($n).try_into().unwrap()
            };
        }
        let k = r.below(52);
        if (40..44).contains(&k) {
            // pictures are slow to make
            if self.ids > 1 || !r.chance(1, 6) {
                return D::PrimitiveBool(true);
            }
            self.ids += 1;
        }
        match k {
            0..=2 => D::PrimitiveU8 { value: r.num() as u8, specialty: self.su() },
            3..=5 => D::PrimitiveU16 { value: r.num() as u16, specialty: self.su() },
            6..=8 => D::PrimitiveU32 { value: r.num() as u32, specialty: self.su() },
            9..=11 => D::PrimitiveU64 { value: r.num() as u64, specialty: self.su() },
            12..=15 => D::PrimitiveU128 { value: r.num(), specialty: self.su() },
            16 => D::PrimitiveI8(r.num() as i8),
            17 => D::PrimitiveI16(r.num() as i16),
            18 => D::PrimitiveI32(r.num() as i32),
            19 => D::PrimitiveI64(r.num() as i64),
            20 => D::PrimitiveI128(r.num() as i128),
            21 => D::PrimitiveI256(BigInt::from(r.num() as i128)),
            22 => D::PrimitiveU256(BigUint::from(r.num())),
            23 => D::PrimitiveBool(r.chance(1, 2)),
            24 => D::PrimitiveChar(*r.pick(&['a', 'é', '\n', '漢'])),
            25 | 26 => D::Text {
                text: if r.chance(1, 4) { dict::word(r) } else { r.pick(&["", "hello", "é\n"]).to_string() },
                specialty: if r.chance(1, 2) { SpecialtyStr::None } else { SpecialtyStr::SpecName },
            },
            27 => D::Era(if r.chance(1, 2) { Era::Immortal } else { Era::Mortal(64, 61) }),
            28 => D::H160(H160(h!(20))),
            29 => D::H256(H256(h!(32))),
            30 => D::H512(H512(h!(64))),
            31 => D::GenesisHash(H256(h!(32))),
            32 => D::BlockHash(H256(h!(32))),
            33 => D::PerU16(PerU16::from_parts(r.num() as u16)),
            34 => D::Percent(Percent::from_parts(r.num() as u8 % 101)),
            35 => D::Permill(Permill::from_parts(r.num() as u32 % 1_000_001)),
            36 => D::Perbill(Perbill::from_parts(r.num() as u32 % 1_000_000_001)),
            37 => D::Perquintill(Perquintill::from_parts(r.num() as u64 % 1_000_000_000_000_000_001)),
            38 => D::EmptyEnum,
            39 => D::SignatureEd25519(SigEd(h!(64))),
            40 => D::Id(AccountId32(h!(32))),
            41 => D::PublicEd25519(PubEd(h!(32))),
            42 => D::PublicSr25519(PubSr(h!(32))),
            43 => D::PublicEcdsa(PubEc(h!(33))),
            44 => D::SignatureSr25519(SigSr(h!(64))),
            45 => D::SignatureEcdsa(SigEc(h!(65))),
            46 | 47 => {
                let n = if r.chance(1, 30) { dict::num(r, 5000) as usize } else { r.below(20) };
                let bits: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
                match r.below(8) {
                    0 => D::BitVecU8Lsb0(bits.iter().copied().collect::<BitVec<u8, Lsb0>>()),
                    1 => D::BitVecU16Lsb0(bits.iter().copied().collect::<BitVec<u16, Lsb0>>()),
                    2 => D::BitVecU32Lsb0(bits.iter().copied().collect::<BitVec<u32, Lsb0>>()),
                    3 => D::BitVecU64Lsb0(bits.iter().copied().collect::<BitVec<u64, Lsb0>>()),
                    4 => D::BitVecU8Msb0(bits.iter().copied().collect::<BitVec<u8, Msb0>>()),
                    5 => D::BitVecU16Msb0(bits.iter().copied().collect::<BitVec<u16, Msb0>>()),
                    6 => D::BitVecU32Msb0(bits.iter().copied().collect::<BitVec<u32, Msb0>>()),
                    _ => D::BitVecU64Msb0(bits.iter().copied().collect::<BitVec<u64, Msb0>>()),
                }
            }
            _ => {
                let n = if r.chance(1, 30) { dict::num(r, 600) as usize } else { r.below(5) };
                let txt = |r: &mut Rng| match r.below(5) {
                    4 => {
                        let w = dict::word(r);
                        let k = if r.chance(1, 20) { dict::num(r, 600) as usize } else { 1 };
                        w.repeat(k.min(600)).into_bytes()
                    }
                    0 => vec![],
                    1 => r.bytes(3),
                    2 => "h\u{e9}".as_bytes().to_vec(),
                    _ => b"hi".to_vec(),
                };
                let info = if r.chance(1, 2) { self.info() } else { vec![] };
                let r = &mut *self.r;
                let data = match r.below(9) {
                    0 | 1 => Sequence::U8(txt(r)),
                    2 => Sequence::U16((0..n).map(|_| r.num() as u16).collect()),
                    3 => Sequence::U32((0..n).map(|_| r.num() as u32).collect()),
                    4 => Sequence::U64((0..n).map(|_| r.num() as u64).collect()),
                    5 => Sequence::U128((0..n).map(|_| r.num()).collect()),
                    _ => Sequence::VecU8 { sequence: (0..n).map(|_| txt(r)).collect(), inner_element_info: info },
                };
                D::Sequence(SequenceData { element_info: self.info(), data })
            }
        }
    }
}
pub fn c19(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let specs = ShortSpecs {
        base58prefix: *r.pick(&[0, 2, 42, 63, 64, 16383]),
        decimals: r.below(256) as u8,
        unit: r.pick(&["DOT", "", "x"]).to_string(),
    };
    let name = *r.pick(&["westend", "", "a b"]);
    let indent = *r.pick(&[0u32, 0, 1, 7, 1000]);
    let depth = if r.chance(1, 60) { r.range(6, 9) } else { r.range(0, 5) };
    let mut t = Tree { r, ids: 0 };
    let new = |name| Ctx { specs: &specs, name, out: vec![] };
    macro_rules! cmp {
        ($want:expr, $got:expr, $src:expr, $k:expr) => {{
            let got = $got;
            match &got {
                Act::Ok(g) => {
                    let (w, g) = ($want, lines(g));
                    if w != g {
                        let at = w.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
                        return bad(
                            format!("cards of {} differ at card {at}", $k),
                            vec![
                                format!("data: {}", short($src)),
                                format!("short specs {specs:?}, spec name {name:?}, indent {indent}"),
                                format!("expected: {:?}", w.get(at)),
                                format!("got:      {:?}", g.get(at)),
                                format!("{} cards expected, {} made", w.len(), g.len()),
                            ],
                        );
                    }
                    cov.kind($k);
                    cov.nontrivial(fnv(format!("{w:?}").as_bytes()), || short(&w));
                }
                Act::Panic(p) => return bad(format!("making cards panicked: {p}"), vec![format!("data: {}", short($src))]),
                Act::Err(()) => {}
            }
        }};
    }
    match i % 4 {
        0 | 1 => {
            let x = t.ext(depth);
            let show = t.r.chance(1, 2);
            let mut c = new(name);
            c.data(&x.data, indent, show);
            cmp!(c.out, guard(|| Ok::<_, ()>(x.card(indent, show, &specs, name))), &x, "data");
        }
        2 => {
            let p = t.pallet(depth);
            let call = t.r.chance(1, 2);
            let mut c = new(name);
            c.pallet(&p, if call { "CallName" } else { "EventName" }, indent);
            if call {
                cmp!(c.out, guard(|| Ok::<_, ()>(Call(p.clone()).card(indent, &specs, name))), &p, "call");
            } else {
                cmp!(c.out, guard(|| Ok::<_, ()>(Event(p.clone()).card(indent, &specs, name))), &p, "event");
            }
        }
        _ => {
            let exts: Vec<ExtendedData> = (0..t.r.below(4)).map(|_| t.ext(depth.min(3))).collect();
            let p = t.pallet(depth.min(3));
            let mut c = new(name);
            for e in &exts {
                c.data(&e.data, 0, true)
            }
            let ext_lines = c.out;
            let mut c = new(name);
            c.pallet(&p, "CallName", 0);
            let call_lines = c.out;
            if t.r.chance(1, 2) {
                let fails = t.r.chance(1, 4);
                let tp = TransactionParsed::<(), Meta> {
                    call_result: if fails { Err(SignableError::CutSignable) } else { Ok(Call(p.clone())) },
                    extensions: exts.clone(),
                };
                let out = guard(|| Ok::<_, ()>(tp.card(&specs, name)));
                match out {
                    Act::Ok(o) => {
                        cmp!(ext_lines, Act::Ok::<_, ()>(o.extensions), &exts, "extensions");
                        match o.call_result {
                            Ok(c) if !fails => cmp!(call_lines, Act::Ok::<_, ()>(c), &p, "call in transaction"),
                            Err(SignableError::CutSignable) if fails => {}
                            _ => return bad("call result changed by making cards", vec![]),
                        }
                    }
                    Act::Panic(m) => return bad(format!("making cards panicked: {m}"), vec![short(&exts), short(&p)]),
                    Act::Err(()) => {}
                }
            } else {
                let tp = TransactionUnmarkedParsed { call: Call(p.clone()), extensions: exts.clone() };
                match guard(|| Ok::<_, ()>(tp.card(&specs, name))) {
                    Act::Ok(o) => {
                        cmp!(ext_lines, Act::Ok::<_, ()>(o.extensions), &exts, "extensions");
                        cmp!(call_lines, Act::Ok::<_, ()>(o.call), &p, "call in transaction");
                    }
                    Act::Panic(m) => return bad(format!("making cards panicked: {m}"), vec![short(&exts), short(&p)]),
                    Act::Err(()) => {}
                }
            }
        }
    }
    Ok(())
}
