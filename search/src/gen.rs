//! Generators of registries and of data for them.
use crate::dict;
use crate::refdec::{enc_compact, known, Known};
use crate::util::*;
use scale_info::{
    form::PortableForm, Field, Path, Type, TypeDef, TypeDefArray, TypeDefBitSequence, TypeDefCompact, TypeDefComposite,
    TypeDefPrimitive as P, TypeDefSequence, TypeDefTuple, TypeDefVariant, Variant,
};
use std::collections::BTreeMap;

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub reg: BTreeMap<u32, Ty>,
    pub flavor: Flavor,
    pub steps: u32,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Flavor {
    All,
    /// no errors in the registry: every valid encoding decodes
    Clean,
    Compact,
    Cyclic,
    Roles,
    Patterns,
    Seqs,
}

const PRIMS: [P; 15] = [
    P::Bool, P::Char, P::Str, P::U8, P::U16, P::U32, P::U64, P::U128, P::U256, P::I8, P::I16, P::I32, P::I64, P::I128, P::I256,
];
const UINTS: [P; 5] = [P::U8, P::U16, P::U32, P::U64, P::U128];

pub fn path(s: &[&str]) -> Path<PortableForm> {
    Path::from_segments_unchecked(s.iter().map(|x| x.to_string()))
}
pub fn strs(s: &[&str]) -> Vec<String> {
    s.iter().map(|x| x.to_string()).collect()
}
pub fn ty(p: Path<PortableForm>, d: impl Into<TypeDef<PortableForm>>, docs: Vec<String>) -> Ty {
    Type::new(p, vec![], d, docs)
}
pub fn plain(d: impl Into<TypeDef<PortableForm>>) -> Ty {
    ty(path(&[]), d, vec![])
}
pub fn field(name: Option<&str>, id: u32, type_name: Option<&str>) -> Field<PortableForm> {
    Field::new(name.map(|s| s.to_string()), sym(id), type_name.map(|s| s.to_string()), vec![])
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, flavor: Flavor) -> Self {
        Gen { r, reg: BTreeMap::new(), flavor, steps: 0 }
    }
    pub fn add(&mut self, t: Ty) -> u32 {
        loop {
            let id = match self.r.below(10) {
                0 => self.r.next() as u32,
                _ => self.r.below(400) as u32,
            };
            if !self.reg.contains_key(&id) {
                self.reg.insert(id, t);
                return id;
            }
        }
    }
    pub fn prim(&mut self, p: P) -> u32 {
        self.add(plain(p))
    }
    fn docs(&mut self) -> Vec<String> {
        match self.r.below(8) {
            0 => strs(&["one line"]),
            1 => strs(&[" first", "", "third"]),
            2 => strs(&[""]),
            _ => vec![],
        }
    }
    fn any_path(&mut self) -> Path<PortableForm> {
        let n = self.r.below(14);
        match n {
            12 => {
                let k = self.r.range(1, 4);
                Path::from_segments_unchecked((0..k).map(|_| dict::word(self.r)).collect::<Vec<_>>())
            }
            13 => {
                let p = strs(*self.r.pick(&KNOWN_PATHS));
                Path::from_segments_unchecked(dict::bend(self.r, &p))
            }
            0..=5 => path(&[]),
            6 => path(&["my", "Type"]),
            7 => path(&["Other"]),
            8 => path(&["sp_core", "crypto", "Public"]),
            9 => path(&["pallet", "Signature"]),
            10 => {
                let i = *self.r.pick(&["CheckNonce", "ChargeAssetTxPayment", "ChargeTransactionPayment", "CheckGenesis", "CheckMortality", "CheckSpecVersion", "CheckTxVersion"]);
                path(&["frame_system", i])
            }
            _ => {
                let i = *self.r.pick(&["Nonce", "Balance", "Perthing", "accountid32", "era", "H128", "MultiAddress", "UncheckedExtrinsic", "CallX", "XEvent"]);
                path(&["x", i])
            }
        }
    }
    pub fn field_names(&mut self) -> (Option<String>, Option<String>) {
        let roles = self.flavor == Flavor::Roles;
        let name = match self.r.below(if roles { 6 } else { 14 }) {
            0 => Some(*self.r.pick(&["nonce", "spec_version", "spec_name", "tx_version", "transaction_version"])),
            1 => Some(*self.r.pick(&["Nonce", "specversion", "spec_version ", "version", "balance", "nonces"])),
            2 | 3 => None,
            _ => Some(*self.r.pick(&["a", "b", "field", "value", "dest"])),
        };
        let tn = match self.r.below(if roles { 4 } else { 12 }) {
            0 => Some(*self.r.pick(&["Balance", "BalanceOf<T>", "BalanceOf<T, I>", "DepositBalance", "ExtendedBalance", "PalletBalanceOf<T>", "T::Balance"])),
            1 => Some(*self.r.pick(&["balance", "Balance<T>", "BalanceOf<T,I>", "T::Balance ", "AccountId", "ed25519::Signature", "nonce"])),
            2 => None,
            _ => Some(*self.r.pick(&["T::Hash", "u32", "Vec<u8>"])),
        };
        let (mut name, mut tn) = (name.map(|s| s.to_string()), tn.map(|s| s.to_string()));
        if self.r.chance(1, if roles { 6 } else { 24 }) {
            name = Some(dict::word(self.r))
        }
        if self.r.chance(1, if roles { 6 } else { 24 }) {
            tn = Some(dict::word(self.r))
        }
        (name, tn)
    }
    pub fn known_ty(&mut self, k: Known, honest: bool) -> u32 {
        let (p, n): (Vec<&str>, usize) = match k {
            Known::AccountId32 => (vec!["sp_core", "crypto", "AccountId32"], 32),
            Known::Era => (vec!["sp_runtime", "generic", "era", "Era"], 1),
            Known::H160 => (vec!["primitive_types", if self.r.chance(1, 2) { "H160" } else { "AccountId20" }], 20),
            Known::H256 => (vec!["primitive_types", "H256"], 32),
            Known::H512 => (vec!["primitive_types", "H512"], 64),
            Known::Perbill => (vec!["sp_arithmetic", "per_things", "Perbill"], 4),
            Known::Percent => (vec!["sp_arithmetic", "per_things", "Percent"], 1),
            Known::Permill => (vec!["sp_arithmetic", "per_things", "Permill"], 4),
            Known::Perquintill => (vec!["sp_arithmetic", "per_things", "Perquintill"], 8),
            Known::PerU16 => (vec!["sp_arithmetic", "per_things", "PerU16"], 2),
            Known::PubEd => (vec!["sp_core", "ed25519", "Public"], 32),
            Known::PubSr => (vec!["sp_core", "sr25519", "Public"], 32),
            Known::PubEc => (vec!["sp_core", "ecdsa", "Public"], 33),
            Known::SigEd => (vec!["sp_core", "ed25519", "Signature"], 64),
            Known::SigSr => (vec!["sp_core", "sr25519", "Signature"], 64),
            Known::SigEc => (vec!["sp_core", "ecdsa", "Signature"], 65),
            Known::Xt => (vec!["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"], 0),
            Known::MultiSig => (vec!["sp_runtime", "MultiSignature"], 0),
            Known::Call => (vec!["kitchen_runtime", "RuntimeCall"], 0),
            Known::Event => (vec!["kitchen_runtime", "RuntimeEvent"], 0),
        };
        let p = match self.r.below(6) {
            0 if !matches!(k, Known::PubEd | Known::PubSr | Known::PubEc | Known::SigEd | Known::SigSr | Known::SigEc | Known::Xt) => {
                vec![*p.last().unwrap()]
            }
            _ => p,
        };
        let mut p = strs(&p);
        if !honest && self.r.chance(1, 4) {
            p = dict::bend(self.r, &p)
        }
        let p = Path::from_segments_unchecked(p);
        let docs = self.docs();
        if honest || self.r.chance(3, 4) {
            let u = self.prim(P::U8);
            let a = self.add(plain(TypeDefArray::new(n as u32, sym(u))));
            self.add(ty(p, TypeDefComposite::new(vec![field(None, a, None)]), docs))
        } else {
            let d = *self.r.pick(&PRIMS_ID);
            self.add(ty(p, PRIMS[d].clone(), docs))
        }
    }
    pub fn bitseq(&mut self, w: usize, msb: bool) -> u32 {
        let order = ty(path(&["bitvec", "order", if msb { "Msb0" } else { "Lsb0" }]), TypeDefComposite::new(vec![]), vec![]);
        let order = self.add(order);
        let store = self.prim([P::U8, P::U16, P::U32, P::U64][w].clone());
        self.add(plain(TypeDefBitSequence::new_portable(sym(store), sym(order))))
    }
    fn fields(&mut self, n: usize, depth: usize) -> Vec<Field<PortableForm>> {
        (0..n)
            .map(|_| {
                let (a, b) = self.field_names();
                let t = self.gen(depth);
                let d = self.docs();
                Field::new(a, sym(t), b, d)
            })
            .collect()
    }
    pub fn variants(&mut self, n: usize, depth: usize) -> Vec<Variant<PortableForm>> {
        let mut idx: Vec<u8> = (0..n).map(|i| if self.r.chance(1, 3) { self.r.next() as u8 } else { i as u8 }).collect();
        if self.r.chance(1, 3) {
            idx.reverse()
        }
        if self.flavor == Flavor::Clean {
            idx.sort();
            idx.dedup();
        }
        idx.iter()
            .enumerate()
            .map(|(i, x)| {
                let nf = self.r.below(3);
                let f = self.fields(nf, depth);
                let d = self.docs();
                let name = if self.r.chance(1, 30) { dict::word(self.r) } else { format!("V{i}") };
                Variant::new(name, f, *x, d)
            })
            .collect()
    }
    /// Outer enum of calls or events over inner enums.
    pub fn pallet_item(&mut self, call: bool, depth: usize) -> u32 {
        let names: &[&str] = if call { &["Call", "RuntimeCall"] } else { &["Event", "RuntimeEvent"] };
        let broken = if self.flavor == Flavor::Clean { 99 } else { self.r.below(14) };
        let mut out = vec![];
        let n = self.r.range(1, 3);
        for i in 0..n {
            let nv = self.r.range(1, 3);
            let vs = self.variants(nv, depth.saturating_sub(1));
            let nm = if broken == 0 {
                if self.r.chance(1, 2) { self.r.pick(&["Calls", "Error", "Event", "Call"]).to_string() } else { dict::word(self.r) }
            } else {
                self.r.pick(names).to_string()
            };
            let d = self.docs();
            let inner: TypeDef<PortableForm> = if broken == 1 {
                let f = self.fields(1, 0);
                TypeDefComposite::new(f).into()
            } else {
                TypeDefVariant::new(vs).into()
            };
            let inner = self.add(ty(path(&["pallet_x", "pallet", &nm]), inner, d));
            let mut f = vec![field(None, inner, Some("Call<T>"))];
            if broken == 2 {
                let x = self.prim(P::U8);
                f.push(field(None, x, None))
            }
            if broken == 3 {
                f.clear()
            }
            let name = if self.r.chance(1, 6) { dict::word(self.r) } else { self.r.pick(&["Balances", "Staking", "System", "Utility"]).to_string() };
            let d = self.docs();
            let ix = if self.r.chance(1, 4) { self.r.next() as u8 } else { i as u8 };
            out.push(Variant::new(name, f, ix, d))
        }
        if broken == 4 {
            out.reverse()
        }
        let nm = if broken == 5 { dict::word(self.r) } else { self.r.pick(names).to_string() };
        let d = self.docs();
        self.add(ty(path(&["rt", &nm]), TypeDefVariant::new(out), d))
    }
    pub fn multisig(&mut self) -> u32 {
        let kinds: [(&str, u32); 3] = [("ed25519::Signature", 64), ("sr25519::Signature", 64), ("ecdsa::Signature", 65)];
        let clean = self.flavor == Flavor::Clean;
        let mut out = vec![];
        for (i, (tn, len)) in kinds.iter().enumerate() {
            let mut len = *len;
            let mut tn = tn.to_string();
            let mut elem = P::U8;
            let mut extra = false;
            let mut wrap = self.r.below(3);
            let mut compact = false;
            if !clean {
                match self.r.below(12) {
                    0 => len = *self.r.pick(&[64, 65, 63, 32]),
                    1 => tn = self.r.pick(&["ed25519::Signature", "sr25519::Signature", "ecdsa::Signature", "Signature", "sr25519::Public"]).to_string(),
                    6 => tn = dict::word(self.r),
                    2 => elem = P::I8,
                    3 => extra = true,
                    4 => wrap = 5,
                    5 => compact = true,
                    _ => {}
                }
            }
            let e = self.prim(elem);
            let mut a = self.add(plain(TypeDefArray::new(len, sym(e))));
            if compact {
                a = self.add(plain(TypeDefCompact::new(sym(a))))
            }
            for _ in 0..wrap.min(2) {
                a = self.add(ty(path(&["w", "Sig"]), TypeDefComposite::new(vec![field(None, a, Some("[u8; 64]"))]), vec![]))
            }
            if wrap == 5 {
                // well-known type inside
                let k = *self.r.pick(&[Known::SigEd, Known::SigSr, Known::SigEc]);
                a = self.known_ty(k, true)
            }
            let mut f = vec![field(None, a, if self.r.chance(1, 12) && !clean { None } else { Some(&tn[..]) })];
            if extra {
                let x = self.prim(P::U8);
                f.push(field(None, x, None))
            }
            out.push(Variant::new(["Ed25519", "Sr25519", "Ecdsa"][i].to_string(), f, i as u8, vec![]))
        }
        let d = self.docs();
        self.add(ty(path(&["sp_runtime", "MultiSignature"]), TypeDefVariant::new(out), d))
    }
    /// Something that may be inside compact.
    pub fn compactable(&mut self, depth: usize) -> u32 {
        match self.r.below(if depth == 0 { 6 } else { 10 }) {
            0..=3 => {
                let p = self.r.pick(&UINTS).clone();
                self.prim(p)
            }
            4 | 5 => {
                let k = *self.r.pick(&[Known::Perbill, Known::Percent, Known::Permill, Known::Perquintill, Known::PerU16]);
                self.known_ty(k, true)
            }
            6 | 7 => {
                let t = self.compactable(depth - 1);
                let (a, b) = self.field_names();
                let p = self.any_path();
                self.add(ty(p, TypeDefComposite::new(vec![Field::new(a, sym(t), b, vec![])]), vec![]))
            }
            8 => {
                let t = self.compactable(depth - 1);
                self.add(plain(TypeDefTuple::new_portable(vec![sym(t)])))
            }
            _ => {
                if self.r.chance(1, 2) {
                    self.add(plain(TypeDefTuple::new_portable(vec![])))
                } else {
                    self.add(plain(TypeDefComposite::new(vec![])))
                }
            }
        }
    }
    pub fn compact(&mut self, depth: usize) -> u32 {
        let wild = match self.flavor {
            Flavor::Clean => 0,
            Flavor::Compact => 5,
            _ => 1,
        };
        let t = if self.r.chance(wild, 10) { self.gen(depth.saturating_sub(1)) } else { self.compactable(depth.min(3)) };
        let d = self.docs();
        self.add(ty(path(&[]), TypeDefCompact::new(sym(t)), d))
    }
    pub fn gen(&mut self, depth: usize) -> u32 {
        let f = self.flavor;
        let reuse = match f {
            Flavor::Cyclic => 4,
            _ => 1,
        };
        if self.reg.len() > 1 && self.r.chance(reuse, 12) {
            let ids: Vec<u32> = self.reg.keys().copied().collect();
            return *self.r.pick(&ids);
        }
        if f == Flavor::Cyclic && self.r.chance(1, 6) {
            // id that is going to be bound later
            return 1000 + self.r.below(4) as u32;
        }
        let kind = if depth == 0 { *self.r.pick(&[0, 0, 1, 2, 9]) } else { self.r.below(22) };
        let kind = match f {
            Flavor::Compact if self.r.chance(1, 3) => 7,
            Flavor::Patterns if depth > 0 && self.r.chance(1, 2) => *self.r.pick(&[10, 11, 12, 1, 1]),
            Flavor::Seqs if depth > 0 && self.r.chance(1, 2) => *self.r.pick(&[5, 6]),
            Flavor::Roles if self.r.chance(1, 3) => *self.r.pick(&[3, 14, 1, 8]),
            _ => kind,
        };
        let p = self.any_path();
        let docs = self.docs();
        match kind {
            0 | 13 => {
                let i = *self.r.pick(&PRIMS_ID);
                self.add(ty(p, PRIMS[i].clone(), docs))
            }
            14 => {
                let i = self.r.pick(&UINTS).clone();
                self.add(ty(p, i, docs))
            }
            1 | 15 => {
                let k = *self.r.pick(&ALL_KNOWN);
                let honest = f == Flavor::Clean || self.r.chance(5, 6);
                match k {
                    Known::MultiSig => self.multisig(),
                    Known::Call => self.pallet_item(true, depth),
                    Known::Event => self.pallet_item(false, depth),
                    Known::Xt => {
                        let u = self.prim(P::U8);
                        self.add(ty(path(&["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"]), TypeDefSequence::new(sym(u)), docs))
                    }
                    k => self.known_ty(k, honest),
                }
            }
            2 => {
                let u = self.prim(P::U8);
                self.add(ty(p, TypeDefSequence::new(sym(u)), docs))
            }
            3 | 16 | 17 => {
                let n = *self.r.pick(&[0, 1, 1, 2, 3]);
                let n = if self.r.chance(1, 400) { dict::num(self.r, 600) as usize } else { n };
                if n > 9 {
                    let u = self.prim(P::U8);
                    let named = self.r.below(3);
                    let fs = (0..n).map(|i| field(if named == 0 || named == 1 && i % 3 == 0 { Some("a") } else { None }, u, None)).collect::<Vec<_>>();
                    return self.add(ty(p, TypeDefComposite::new(fs), docs));
                }
                let fs = self.fields(n, depth.saturating_sub(1));
                self.add(ty(p, TypeDefComposite::new(fs), docs))
            }
            4 | 18 => {
                let n = self.r.below(4);
                let vs = self.variants(n, depth.saturating_sub(1));
                self.add(ty(p, TypeDefVariant::new(vs), docs))
            }
            5 | 19 => {
                let t = self.gen(depth.saturating_sub(1));
                self.add(ty(p, TypeDefSequence::new(sym(t)), docs))
            }
            6 => {
                let t = self.gen(depth.saturating_sub(1));
                let n = *self.r.pick(&[0, 1, 2, 3, 7]);
                let n = if self.r.chance(1, 300) && self.reg.get(&t).is_some_and(|t| flat(t).is_some()) { dict::num(self.r, 70_000) as u32 } else { n };
                self.add(ty(p, TypeDefArray::new(n, sym(t)), docs))
            }
            7 | 20 => self.compact(depth),
            8 | 21 => {
                let n = *self.r.pick(&[0, 1, 2, 3]);
                let ts: Vec<Sym> = (0..n).map(|_| sym(self.gen(depth.saturating_sub(1)))).collect();
                self.add(ty(p, TypeDefTuple::new_portable(ts), docs))
            }
            9 => {
                let w = self.r.below(4);
                let m = self.r.chance(1, 2);
                if f != Flavor::Clean && self.r.chance(1, 20) {
                    let o = self.gen(0);
                    let s = self.gen(0);
                    return self.add(plain(TypeDefBitSequence::new_portable(sym(s), sym(o))));
                }
                self.bitseq(w, m)
            }
            10 => self.pallet_item(true, depth),
            11 => self.pallet_item(false, depth),
            _ => self.multisig(),
        }
    }
    /// Registry with a root.
    pub fn root(&mut self, depth: usize) -> u32 {
        let mut id = self.gen(depth);
        if self.flavor == Flavor::Cyclic {
            if self.r.chance(1, 10) {
                // long chain, perhaps closed
                let n = dict::num(self.r, 300) as u32 + 1;
                let end = match self.r.below(4) {
                    0 => id,
                    1 => 1000,
                    _ => 2000 + self.r.below(n as usize) as u32,
                };
                let kind = self.r.below(3);
                for k in 0..n {
                    let to = sym(if k + 1 == n { end } else { 2001 + k });
                    let t = match kind {
                        0 => plain(TypeDefComposite::new(vec![field(None, to.id, None)])),
                        1 => plain(TypeDefTuple::new_portable(vec![to])),
                        _ => plain(TypeDefCompact::new(to)),
                    };
                    self.reg.insert(2000 + k, t);
                }
                id = 2000
            }
            for i in 1000..1004u32 {
                let mut ids: Vec<u32> = self.reg.keys().copied().collect();
                ids.push(1000);
                let t = if self.r.chance(1, 3) {
                    let a = *self.r.pick(&ids);
                    let b = 1000 + self.r.below(4) as u32;
                    match self.r.below(7) {
                        0 => plain(TypeDefTuple::new_portable(vec![sym(b)])),
                        1 => plain(TypeDefSequence::new(sym(b))),
                        2 => plain(TypeDefArray::new(self.r.below(3) as u32, sym(b))),
                        3 => plain(TypeDefComposite::new(vec![field(None, b, None)])),
                        4 => plain(TypeDefComposite::new(vec![field(None, a, None), field(None, b, None)])),
                        5 => plain(TypeDefCompact::new(sym(b))),
                        _ => plain(TypeDefVariant::new(vec![
                            Variant::new("E".into(), vec![], 0, vec![]),
                            Variant::new("R".into(), vec![field(None, b, None)], 1, vec![]),
                        ])),
                    }
                } else {
                    let a = *self.r.pick(&ids);
                    match self.reg.get(&a) {
                        Some(t) => t.clone(),
                        None => plain(P::U8),
                    }
                };
                if !self.r.chance(1, 12) {
                    self.reg.insert(i, t);
                }
            }
        }
        id
    }
    /// Random valid data for the type; gives up on depth.
    pub fn enc(&mut self, id: u32, compact: bool, depth: usize, out: &mut Vec<u8>) {
        if depth == 0 || out.len() > 4000 || self.steps > 20_000 {
            return;
        }
        self.steps += 1;
        let Some(t) = self.reg.get(&id).cloned() else { return };
        let d = depth - 1;
        macro_rules! uint {
            ($n:expr) => {{
                let v = if self.r.chance(1, 12) { dict::num(self.r, u64::MAX) as u128 } else { self.r.num() };
                let v = if $n == 16 { v } else { v & ((1u128 << (8 * $n)) - 1) };
                if compact {
                    out.extend(enc_compact(v))
                } else {
                    out.extend(&v.to_le_bytes()[..$n])
                }
            }};
        }
        macro_rules! raw {
            ($n:expr) => {{
                let mut b = self.r.bytes($n);
                if self.r.chance(1, 12) {
                    // one byte all over, or all but one
                    let x = *self.r.pick(&[0u8, 0, 0xff, 0x80, 1]);
                    b.iter_mut().for_each(|y| *y = x);
                    if self.r.chance(1, 2) && !b.is_empty() {
                        let i = if self.r.chance(1, 2) { b.len() - 1 } else { self.r.below(b.len()) };
                        b[i] = self.r.next() as u8
                    }
                }
                out.extend(b)
            }};
        }
        match known(&t) {
            Some(Known::AccountId32) | Some(Known::H256) | Some(Known::PubEd) | Some(Known::PubSr) => return raw!(32),
            Some(Known::H160) => return raw!(20),
            Some(Known::H512) | Some(Known::SigEd) | Some(Known::SigSr) => return raw!(64),
            Some(Known::PubEc) => return raw!(33),
            Some(Known::SigEc) => return raw!(65),
            Some(Known::Era) => {
                if self.r.chance(1, 3) {
                    out.push(0)
                } else {
                    let k = self.r.range(1, 15) as u64;
                    let period = 2u64 << k;
                    let q = (period >> 12).max(1);
                    let phase = (self.r.next() % period) / q;
                    let e = (k | (phase << 4)) as u16;
                    if e & 0xff == 0 {
                        out.push(0)
                    } else {
                        out.extend(e.to_le_bytes())
                    }
                }
                return;
            }
            Some(Known::Perbill) | Some(Known::Permill) => return uint!(4),
            Some(Known::Percent) => return uint!(1),
            Some(Known::Perquintill) => return uint!(8),
            Some(Known::PerU16) => return uint!(2),
            _ => {}
        }
        match &t.type_def {
            TypeDef::Composite(c) => c.fields.iter().for_each(|f| self.enc(f.ty.id, compact, d, out)),
            TypeDef::Variant(v) => {
                if !v.variants.is_empty() {
                    let mut v = self.r.pick(&v.variants).clone();
                    if depth < 4 {
                        if let TypeDef::Variant(vs) = &t.type_def {
                            if let Some(x) = vs.variants.iter().find(|x| x.fields.is_empty()) {
                                v = x.clone()
                            }
                        }
                    }
                    out.push(v.index);
                    v.fields.iter().for_each(|f| self.enc(f.ty.id, false, d, out))
                }
            }
            TypeDef::Sequence(s) => {
                let n = if depth < 4 { self.r.below(2) } else { *self.r.pick(&[0, 1, 2, 3, 5, 9]) };
                let n = if self.r.chance(1, 30) { self.r.below(80) } else { n };
                if self.r.chance(1, 400) && depth > 4 {
                    if let Some(w) = self.reg.get(&s.type_param.id).cloned().and_then(|t| flat(&t)) {
                        // as many as some number in the sources says
                        let n = dict::num(self.r, 70_000) as usize;
                        out.extend(enc_compact(n as u128));
                        let b: Vec<u8> = (0..n * w).map(|_| self.r.next() as u8).collect();
                        out.extend(b);
                        return;
                    }
                }
                out.extend(enc_compact(n as u128));
                for _ in 0..n {
                    self.enc(s.type_param.id, false, d, out)
                }
            }
            TypeDef::Array(a) => {
                if let Some(w) = self.reg.get(&a.type_param.id).cloned().and_then(|t| flat(&t)).filter(|_| a.len > 200) {
                    let b: Vec<u8> = (0..a.len as usize * w).map(|_| self.r.next() as u8).collect();
                    out.extend(b);
                    return;
                }
                for _ in 0..a.len.min(200) {
                    self.enc(a.type_param.id, compact, d, out)
                }
            }
            TypeDef::Tuple(t) => t.fields.iter().for_each(|f| self.enc(f.id, compact, d, out)),
            TypeDef::Compact(c) => self.enc(c.type_param.id, true, d, out),
            TypeDef::BitSequence(b) => {
                let w = match self.reg.get(&b.bit_store_type.id).map(|t| t.type_def.clone()) {
                    Some(TypeDef::Primitive(P::U16)) => 2,
                    Some(TypeDef::Primitive(P::U32)) => 4,
                    Some(TypeDef::Primitive(P::U64)) => 8,
                    _ => 1,
                };
                let bits = match self.r.below(4) {
                    0 => self.r.below(10),
                    1 => self.r.below(140),
                    2 => 8 * w * self.r.below(4),
                    _ => (8 * w * self.r.range(1, 4)).saturating_sub(self.r.below(3)),
                };
                let bits = if self.r.chance(1, 100) { dict::num(self.r, 70_000) as usize } else { bits };
                out.extend(enc_compact(bits as u128));
                raw!(bits.div_ceil(8 * w) * w)
            }
            TypeDef::Primitive(p) => match p {
                P::Bool => out.push(self.r.below(2) as u8),
                P::Char => {
                    let c = loop {
                        let v = match self.r.below(4) {
                            0 => *self.r.pick(&[0u32, 0xd7ff, 0xe000, 0x10ffff, 0xffff]),
                            _ => (self.r.next() as u32) % 0x110000,
                        };
                        if let Some(c) = char::from_u32(v) {
                            break c;
                        }
                    };
                    out.extend((c as u32).to_le_bytes())
                }
                P::Str => {
                    let n = match self.r.below(8) {
                        0 => 63 + self.r.below(4),
                        _ => self.r.below(9),
                    };
                    let mut s: String = (0..n).map(|_| *self.r.pick(&['a', 'Z', ' ', 'é', '漢', '🦀', '\0', '\n', '\u{feff}', '\u{202e}', '\t'])).collect();
                    if self.r.chance(1, 8) {
                        s = dict::exact(self.r).to_string() + &s
                    }
                    if self.r.chance(1, 8) {
                        s += dict::exact(self.r)
                    }
                    if self.r.chance(1, 200) {
                        s = "a".repeat(dict::num(self.r, 70_000) as usize)
                    }
                    out.extend(enc_compact(s.len() as u128));
                    out.extend(s.as_bytes())
                }
                P::U8 => uint!(1),
                P::U16 => uint!(2),
                P::U32 => uint!(4),
                P::U64 => uint!(8),
                P::U128 => uint!(16),
                P::I8 => raw!(1),
                P::I16 => raw!(2),
                P::I32 => raw!(4),
                P::I64 => raw!(8),
                P::I128 => raw!(16),
                P::U256 | P::I256 => raw!(32),
            },
        }
    }
    pub fn data(&mut self, id: u32) -> Vec<u8> {
        let mut out = vec![];
        self.enc(id, false, 12, &mut out);
        out
    }
    /// Damage to valid data; 0 keeps it.
    pub fn damage(&mut self, b: &mut Vec<u8>, how_often: usize) {
        if !self.r.chance(how_often, 10) {
            return;
        }
        match self.r.below(6) {
            0 => {
                let n = self.r.below(b.len() + 1);
                b.truncate(n)
            }
            1 if !b.is_empty() => {
                b.pop();
            }
            2 if !b.is_empty() => {
                let i = self.r.below(b.len());
                b[i] = self.r.next() as u8
            }
            3 if !b.is_empty() => {
                let i = self.r.below(b.len());
                b[i] ^= 1 << self.r.below(8)
            }
            4 => {
                let i = self.r.below(b.len() + 1);
                b.insert(i, self.r.next() as u8)
            }
            _ => {
                let n = self.r.below(12);
                *b = self.r.bytes(n)
            }
        }
    }
}
const PRIMS_ID: [usize; 22] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 3, 4, 5, 6, 7, 2, 3];
pub const ALL_KNOWN: [Known; 20] = [
    Known::AccountId32,
    Known::Era,
    Known::H160,
    Known::H256,
    Known::H512,
    Known::MultiSig,
    Known::Call,
    Known::Event,
    Known::Perbill,
    Known::Percent,
    Known::Permill,
    Known::Perquintill,
    Known::PerU16,
    Known::PubEd,
    Known::PubSr,
    Known::PubEc,
    Known::SigEd,
    Known::SigSr,
    Known::SigEc,
    Known::Xt,
];

pub fn show_reg(reg: &BTreeMap<u32, Ty>) -> Vec<String> {
    reg.iter()
        .map(|(k, t)| format!("{k}: path={:?} docs={:?} def={:?}", t.path.segments, t.docs, t.type_def))
        .collect()
}

const KNOWN_PATHS: [&[&str]; 12] = [
    &["sp_core", "crypto", "AccountId32"],
    &["sp_runtime", "generic", "era", "Era"],
    &["primitive_types", "H160"],
    &["primitive_types", "H256"],
    &["sp_arithmetic", "per_things", "Perbill"],
    &["sp_core", "ed25519", "Public"],
    &["sp_core", "sr25519", "Public"],
    &["sp_core", "ecdsa", "Public"],
    &["sp_core", "ed25519", "Signature"],
    &["sp_core", "sr25519", "Signature"],
    &["sp_core", "ecdsa", "Signature"],
    &["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"],
];
/// bytes of a plain unsigned number
fn flat(t: &Ty) -> Option<usize> {
    if known(t).is_some() {
        return None;
    }
    match &t.type_def {
        TypeDef::Primitive(P::U8) => Some(1),
        TypeDef::Primitive(P::U16) => Some(2),
        TypeDef::Primitive(P::U32) => Some(4),
        TypeDef::Primitive(P::U64) => Some(8),
        TypeDef::Primitive(P::U128) => Some(16),
        _ => None,
    }
}
