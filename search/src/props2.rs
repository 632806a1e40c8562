//! Properties of the entry points: C07, C12..C18, C20 and extension roles of C10.
use crate::dict;
use crate::gen::*;
use crate::props::*;
use crate::refdec::*;
use crate::util::*;
use crate::{bad, Bad, Cov, Res};
use frame_metadata::{v14, v15};
use num_bigint::BigUint;
use primitive_types::H256;
use scale_info::{
    form::PortableForm, PortableRegistry, TypeDef, TypeDefArray, TypeDefComposite, TypeDefPrimitive as P, TypeDefSequence,
    TypeDefTuple, TypeParameter,
};
use sp_crypto_hashing::{blake2_128, twox_64};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;
use substrate_parser::additional_types::Era;
use substrate_parser::cards::*;
use substrate_parser::error::*;
use substrate_parser::printing_balance::AsBalance;
use substrate_parser::special_indicators::SpecialtyUnsignedInteger as SU;
use substrate_parser::storage_data::*;
use substrate_parser::traits::*;
use substrate_parser::unchecked_extrinsic::UncheckedExtrinsic;
use substrate_parser::*;

fn detail(lines: Vec<String>, reg: &Reg, want: impl std::fmt::Debug, got: impl std::fmt::Debug) -> Vec<String> {
    let mut d = lines;
    d.push(format!("expected: {}", short(want)));
    d.push(format!("got:      {}", short(got)));
    d.push("registry:".into());
    d.extend(show_reg(&reg.0).into_iter().take(60));
    d
}
fn take(g: &mut Gen) -> Reg {
    Reg(Rc::new(std::mem::take(&mut g.reg)))
}

// ---------------------------------------------------------------- extensions

/// Parts of a transaction made for some metadata.
struct Tx {
    meta: Meta,
    call: Vec<u8>,
    ext: Vec<u8>,
    genesis: Option<H256>,
}
const PARAMS: [&str; 4] = ["Address", "Call", "Signature", "Extra"];
fn other_word(r: &mut Rng, not: &[&str]) -> String {
    loop {
        let w = dict::word(r);
        if !not.contains(&&w[..]) {
            return w;
        }
    }
}
const EXT_NAMES: [&str; 9] = [
    "CheckSpecVersion", "CheckTxVersion", "CheckGenesis", "CheckMortality", "CheckNonce", "ChargeAssetTxPayment",
    "ChargeTransactionPayment", "CheckWeight", "checkgenesis",
];
fn hash_of(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; 32];
    v[31] = n as u8;
    v
}
pub fn wrap(g: &mut Gen, id: u32, times: usize) -> u32 {
    let mut id = id;
    for _ in 0..times {
        let name = if g.r.chance(1, 4) { Some("inner") } else { None };
        id = match g.r.below(6) {
            0 => g.add(plain(TypeDefTuple::new_portable(vec![sym(id)]))),
            _ => g.add(ty(path(&["frame_system", "Wrap"]), TypeDefComposite::new(vec![field(name, id, None)]), vec![])),
        }
    }
    id
}
/// One transaction; `honest` transactions follow all the rules.
fn tx(r: &mut Rng, honest: bool) -> Tx {
    let mut g = Gen::new(r, Flavor::Clean);
    let call = g.pallet_item(true, 2);
    let unit = g.add(plain(TypeDefTuple::new_portable(vec![])));
    let h256 = g.known_ty(Known::H256, true);
    let era_ty = g.known_ty(Known::Era, true);
    let spec_prim = [P::U8, P::U16, P::U32, P::U64, P::U128][if honest { 2 } else { g.r.below(5) }].clone();
    let spec_n = match spec_prim {
        P::U8 => 1,
        P::U16 => 2,
        P::U32 => 4,
        P::U64 => 8,
        _ => 16,
    };
    let spec_ty = g.prim(spec_prim);
    let mut version = if spec_n == 1 { 200u128 } else { 9111 };
    if !honest && g.r.chance(1, 3) {
        version = g.r.num() & (u128::MAX >> (128 - 8 * spec_n))
    }
    let genesis = g.r.below(2);
    let immortal = g.r.chance(1, 2);
    let mut exts: Vec<(String, u32, u32)> = vec![];
    let mut a: Vec<Vec<u8>> = vec![];
    let mut b: Vec<Vec<u8>> = vec![];
    let mut list: Vec<usize> = vec![0, 1, 2, 3, 4];
    for _ in 0..g.r.below(4) {
        let n = g.r.range(4, 7);
        list.push(n)
    }
    if !honest {
        match g.r.below(6) {
            0 => {
                let i = g.r.below(list.len());
                list.remove(i);
            }
            1 => {
                let i = g.r.below(list.len());
                let n = list[i];
                list.push(n)
            }
            _ => {}
        }
    }
    for i in (1..list.len()).rev() {
        let j = g.r.below(i + 1);
        list.swap(i, j)
    }
    for k in list {
        let w = if honest { g.r.below(2) } else { g.r.below(3) };
        let flip = if honest { false } else { g.r.chance(1, 8) };
        // type and bytes of the part that carries the content
        let (name, t, bytes, front): (&str, u32, Vec<u8>, bool) = match k {
            0 => {
                let v = if !honest && g.r.chance(1, 8) { version ^ (1 << g.r.below(8 * spec_n)) } else { version };
                ("CheckSpecVersion", wrap(&mut g, spec_ty, w), v.to_le_bytes()[..spec_n].to_vec(), false)
            }
            1 => {
                let t = g.prim(P::U32);
                ("CheckTxVersion", t, g.r.bytes(4), false)
            }
            2 => {
                let h = if !honest && g.r.chance(1, 8) { 1 - genesis } else { genesis };
                ("CheckGenesis", wrap(&mut g, h256, w), hash_of(h), false)
            }
            3 => {
                let bh = if immortal {
                    if !honest && g.r.chance(1, 4) { 1 - genesis } else { genesis }
                } else {
                    g.r.below(3)
                };
                let t = wrap(&mut g, era_ty, w);
                let e = if immortal { vec![0] } else { vec![0xd5, 1] };
                // both parts
                let hb = wrap(&mut g, h256, 0);
                exts.push(("CheckMortality".into(), t, hb));
                a.push(e);
                b.push(if !immortal && g.r.chance(1, 4) { g.r.bytes(32) } else { hash_of(bh) });
                continue;
            }
            4 => {
                let t = g.compact(1);
                let bytes = g.data(t);
                let p = *g.r.pick(&["CheckNonce", "CheckNonce", "ChargeTransactionPayment", "Whatever"]);
                let t = g.add(ty(path(&["frame_system", p]), TypeDefComposite::new(vec![field(None, t, Some("T::Index"))]), vec![]));
                (if g.r.chance(1, 4) { "CheckWeight" } else { "CheckNonce" }, t, bytes, true)
            }
            5 => {
                let c = g.gen(1);
                let t = g.prim(P::U128);
                let t = g.add(ty(
                    path(&["pallet_asset_tx_payment", "ChargeAssetTxPayment"]),
                    TypeDefComposite::new(vec![field(Some("tip"), t, Some("BalanceOf<T>")), field(Some("asset_id"), c, None)]),
                    vec![],
                ));
                let bytes = g.data(t);
                ("ChargeAssetTxPayment", t, bytes, true)
            }
            6 => {
                let t = g.prim(P::U128);
                let bytes = g.data(t);
                ("ChargeTransactionPayment", wrap(&mut g, t, w), bytes, true)
            }
            _ => {
                let t = g.gen(2);
                let bytes = g.data(t);
                ("CheckWeight", t, bytes, g.r.chance(1, 2))
            }
        };
        let odd_name = dict::word(g.r);
        let name = if flip { if g.r.chance(1, 2) { *g.r.pick(&EXT_NAMES) } else { &odd_name[..] } } else { name };
        let front = front ^ (!honest && g.r.chance(1, 8));
        if g.r.chance(1, 8) && (!honest || ![0, 2].contains(&k)) {
            // the same type in both parts
            exts.push((name.into(), t, t));
            a.push(bytes.clone());
            b.push(if g.r.chance(1, 2) { g.data(t) } else { bytes });
        } else if front {
            exts.push((name.into(), t, unit));
            a.push(bytes);
            b.push(vec![]);
        } else {
            exts.push((name.into(), unit, t));
            a.push(vec![]);
            b.push(bytes);
        }
    }
    let mut ext: Vec<u8> = a.concat();
    ext.extend(b.concat());
    if !honest && g.r.chance(1, 40) {
        exts.clear();
        let n = g.r.below(4);
        ext = g.r.bytes(n)
    }
    let call_bytes = g.data(call);
    let reg = take(&mut g);
    Tx {
        meta: Meta {
            reg,
            version: if !honest && g.r.chance(1, 12) { format!("0{version}") } else { version.to_string() },
            name: "chain".into(),
            call,
            exts,
            address: unit,
            signature: unit,
            extra: unit,
            ext_version: 4,
        },
        call: call_bytes,
        ext,
        genesis: if r.chance(1, 3) { None } else { Some(H256::from_slice(&hash_of(if !honest && r.chance(1, 6) { 1 - genesis } else { genesis }))) },
    }
}

#[derive(Debug)]
enum Ex {
    Ok(Vec<ExtendedData>, usize),
    Parse(RErr),
    Left(usize),
    Refused(&'static str),
}
/// What the rules say about extensions starting at `pos`.
fn ext_oracle(m: &Meta, b: &[u8], pos: usize, genesis: Option<H256>) -> Ex {
    let d = Dec::new(&m.reg.0, b);
    let mut p = pos;
    let mut out = vec![];
    for pass in 0..2 {
        for (n, t, a) in &m.exts {
            match d.decode(if pass == 0 { *t } else { *a }, &mut p, St::role(Role::of_ext(n))) {
                Ok(x) => out.push(x),
                Err(e) => return Ex::Parse(e),
            }
        }
    }
    if p != b.len() {
        return Ex::Left(p);
    }
    let (mut era, mut gen, mut block, mut spec) = (vec![], vec![], vec![], vec![]);
    for x in &out {
        let c = match &x.data {
            ParsedData::Composite(f) if f.len() == 1 => &f[0].data.data,
            ParsedData::Composite(_) => continue,
            o => o,
        };
        match c {
            ParsedData::Era(e) => era.push(*e),
            ParsedData::GenesisHash(h) => gen.push(*h),
            ParsedData::BlockHash(h) => block.push(*h),
            ParsedData::PrimitiveU8 { value, specialty: SU::SpecVersion } => spec.push(*value as u128),
            ParsedData::PrimitiveU16 { value, specialty: SU::SpecVersion } => spec.push(*value as u128),
            ParsedData::PrimitiveU32 { value, specialty: SU::SpecVersion } => spec.push(*value as u128),
            ParsedData::PrimitiveU64 { value, specialty: SU::SpecVersion } => spec.push(*value as u128),
            ParsedData::PrimitiveU128 { value, specialty: SU::SpecVersion } => spec.push(*value),
            _ => {}
        }
    }
    if era.len() > 1 {
        return Ex::Refused("two eras");
    }
    if gen.len() > 1 {
        return Ex::Refused("two genesis hashes");
    }
    if block.len() > 1 {
        return Ex::Refused("two block hashes");
    }
    if spec.len() > 1 {
        return Ex::Refused("two spec versions");
    }
    if spec.is_empty() {
        return Ex::Refused("no spec version");
    }
    if spec[0].to_string() != m.version {
        return Ex::Refused("other spec version");
    }
    if gen.is_empty() {
        return Ex::Refused("no genesis hash");
    }
    if matches!(genesis, Some(g) if g != gen[0]) {
        return Ex::Refused("other genesis hash");
    }
    if era.first() == Some(&Era::Immortal) && matches!(block.first(), Some(h) if *h != gen[0]) {
        return Ex::Refused("immortal with other block hash");
    }
    Ex::Ok(out, p)
}
fn ext_lines(m: &Meta, b: &[u8], pos: usize, genesis: Option<H256>) -> Vec<String> {
    vec![
        format!("extensions {:?}", m.exts),
        format!("data {} from {pos}", hex::encode(b)),
        format!("spec version in metadata {:?}, genesis hash {:?}", m.version, genesis),
    ]
}
fn ext_check(m: &Meta, b: &[u8], pos: usize, genesis: Option<H256>, values: bool, cov: &mut Cov) -> Res {
    let want = ext_oracle(m, b, pos, genesis);
    if let Ex::Parse(RErr::Fuel) = want {
        return Ok(());
    }
    let mut p = pos;
    let got = guard(|| decode_extensions_unmarked::<&[u8], (), Meta>(&b, &mut p, &mut (), m, genesis));
    let fail = |w: &str| bad(w, detail(ext_lines(m, b, pos, genesis), &m.reg, &want, &got));
    match (&want, &got) {
        (Ex::Ok(w, q), Act::Ok(g)) => {
            if *q != p {
                return fail("position after extensions differs");
            }
            if values {
                let n = Norm { roles: false, groups: true, calls: true };
                let a: Vec<_> = w.iter().map(|x| n.ext(x)).collect();
                let c: Vec<_> = g.iter().map(|x| n.ext(x)).collect();
                if a != c {
                    return fail("decoded extensions differ");
                }
            }
            cov.kind("accepted");
        }
        (Ex::Parse(_), Act::Err(_)) => cov.kind("not decodeable"),
        (Ex::Left(at), Act::Err(e)) => {
            match e {
                SignableError::SomeDataNotUsedExtensions { from } if from == at => {}
                _ => return fail("left-over bytes are not reported as such"),
            }
            cov.kind("left-over bytes")
        }
        (Ex::Refused(k), Act::Err(e)) => {
            if matches!(e, SignableError::Parsing(_) | SignableError::SomeDataNotUsedExtensions { .. }) {
                return fail("refused for another reason");
            }
            cov.kind(k)
        }
        _ => return fail("acceptance of extensions differs"),
    }
    cov.nontrivial(fnv(b) ^ fnv(m.version.as_bytes()) ^ fnv(format!("{:?}", m.exts).as_bytes()), || short(&want));
    Ok(())
}
pub fn c13(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let mut t = tx(r, i % 3 != 0);
    if i % 5 == 0 {
        Gen::new(r, Flavor::Clean).damage(&mut t.ext, 5)
    }
    let pos = r.below(5);
    let mut b = r.bytes(pos);
    b.extend(&t.ext);
    ext_check(&t.meta, &b, pos, t.genesis, true, cov)
}
pub fn c14(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let t = tx(r, i % 6 == 0);
    ext_check(&t.meta, &t.ext, 0, t.genesis, false, cov)
}
/// Type of the scene decoded under an extension.
pub fn role_under_extension(r: &mut Rng, s: &Scene, cov: &mut Cov) -> Res {
    let odd_name = dict::word(r);
    let name = if r.chance(1, 5) { &odd_name[..] } else { *r.pick(&EXT_NAMES) };
    let role = Role::of_ext(name);
    let (want, wp, _) = reference(&s.reg, s.id, &s.b, s.pos, role);
    if want.is_err() || wp - s.pos > 2000 {
        return Ok(());
    }
    let mut reg = (*s.reg.0).clone();
    let mut free = (2000u32..).filter(|k| !s.reg.0.contains_key(k));
    let (unit, spec, arr, byte, h) = (free.next().unwrap(), free.next().unwrap(), free.next().unwrap(), free.next().unwrap(), free.next().unwrap());
    reg.insert(unit, plain(TypeDefTuple::new_portable(vec![])));
    reg.insert(spec, plain(P::U32));
    reg.insert(byte, plain(P::U8));
    reg.insert(arr, plain(TypeDefArray::new(32, sym(byte))));
    reg.insert(h, ty(path(&["H256"]), TypeDefComposite::new(vec![field(None, arr, None)]), vec![]));
    let front = r.chance(1, 2);
    let item = &s.b[s.pos..wp];
    let mut exts = vec![(name.to_string(), if front { s.id } else { unit }, if front { unit } else { s.id })];
    let mut b: Vec<u8> = item.to_vec();
    let mut version = "77".to_string();
    // the item itself may serve
    let inner = match &want {
        Ok(ExtendedData { data: ParsedData::Composite(f), .. }) if f.len() == 1 => Some(&f[0].data.data),
        Ok(x) => Some(&x.data),
        _ => None,
    };
    let own = match inner {
        Some(ParsedData::PrimitiveU8 { value, specialty: SU::SpecVersion }) => Some(value.to_string()),
        Some(ParsedData::PrimitiveU16 { value, specialty: SU::SpecVersion }) => Some(value.to_string()),
        Some(ParsedData::PrimitiveU32 { value, specialty: SU::SpecVersion }) => Some(value.to_string()),
        Some(ParsedData::PrimitiveU64 { value, specialty: SU::SpecVersion }) => Some(value.to_string()),
        Some(ParsedData::PrimitiveU128 { value, specialty: SU::SpecVersion }) => Some(value.to_string()),
        _ => None,
    };
    match own {
        Some(v) => version = v,
        None => {
            exts.push(("CheckSpecVersion".into(), unit, spec));
            b.extend(77u32.to_le_bytes());
        }
    }
    if !matches!(inner, Some(ParsedData::GenesisHash(_))) {
        exts.push(("CheckGenesis".into(), unit, h));
        b.extend([9u8; 32]);
    }
    let meta = Meta { reg: Reg(Rc::new(reg)), version, exts, ..Default::default() };
    ext_check(&meta, &b, 0, None, true, cov)
}

// ------------------------------------------------------------------ marked

#[derive(Debug, PartialEq)]
enum CallWant {
    Ok(Call),
    NotACall,
    Left(usize),
    Parse(RErr),
}
fn call_oracle(m: &Meta, b: &[u8], pos: usize) -> (CallWant, usize) {
    let d = Dec::new(&m.reg.0, b);
    let mut p = pos;
    let w = match d.decode(m.call, &mut p, St::new()) {
        Err(e) => CallWant::Parse(e),
        Ok(ExtendedData { data: ParsedData::Call(c), .. }) => CallWant::Ok(c),
        Ok(_) => CallWant::NotACall,
    };
    (w, p)
}
fn norm_call(c: &Call) -> ParsedData {
    Norm { roles: false, groups: true, calls: true }.data(&ParsedData::Call(c.clone()))
}
pub fn c12(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let mut t = tx(r, i % 4 != 0);
    // call with length
    let said = match r.below(8) {
        0 => t.call.len() + r.below(4),
        1 => t.call.len().saturating_sub(r.below(4)),
        2 => r.num() as u32 as usize,
        3 => t.call.len() + t.ext.len() + r.below(2),
        _ => t.call.len(),
    };
    let mut b = if r.chance(1, 25) { r.bytes(2) } else { enc_compact(said as u128) };
    b.extend(&t.call);
    b.extend(&t.ext);
    if r.chance(1, 12) {
        Gen::new(r, Flavor::Clean).damage(&mut b, 10)
    }
    if r.chance(1, 10) {
        t.meta.call = *r.pick(&t.meta.reg.0.keys().copied().collect::<Vec<_>>())
    }
    let want = compact(&b, u32::MAX as u128).and_then(|(v, n)| {
        let end = n.checked_add(v as usize)?;
        if end <= b.len() {
            Some((n, end))
        } else {
            None
        }
    });
    let lines = || {
        vec![format!("transaction {}", hex::encode(&b)), format!("call type {}, extensions {:?}, version {}", t.meta.call, t.meta.exts, t.meta.version)]
    };
    let spy = Spy { b: &b[..], max: Rc::new(Cell::new(0)) };
    let got = guard(|| MarkedData::<Spy, (), Meta>::mark(&spy, &mut ()).map(|m| (m.call_start(), m.extensions_start())));
    match (&want, &got) {
        (Some(w), Act::Ok(g)) if w == g => {}
        (None, Act::Err(SignableError::CutSignable)) => {}
        _ => return bad("transaction split differs", detail(lines(), &t.meta.reg, want, got)),
    }
    let Some((start, end)) = want else {
        cov.kind("not split");
        cov.nontrivial(fnv(&b), || hex::encode(&b));
        // whole parsing has to refuse it too
        let got = guard(|| parse_transaction::<&[u8], (), Meta>(&&b[..], &mut (), &t.meta, t.genesis));
        return match got {
            Act::Err(SignableError::CutSignable) => Ok(()),
            _ => bad("badly prefixed transaction is not refused", detail(lines(), &t.meta.reg, "CutSignable", short(got))),
        };
    };
    let marked = match MarkedData::<Spy, (), Meta>::mark(&spy, &mut ()) {
        Ok(m) => m,
        Err(_) => return bad("second marking differs", lines()),
    };
    let cut = guard(|| Ok::<_, ()>(marked.data_no_extensions()));
    match &cut {
        Act::Ok(c) if c.b == &b[..end] => {}
        _ => return bad("data without extensions differs", detail(lines(), &t.meta.reg, &b[..end], cut)),
    }
    spy.max.set(0);
    let (mut cw, cp) = call_oracle(&t.meta, &b[..end], start);
    if cw == CallWant::Parse(RErr::Fuel) {
        return Ok(());
    }
    if matches!(cw, CallWant::Ok(_)) && cp != end {
        cw = CallWant::Left(cp)
    }
    let cg = guard(|| decode_as_call::<Spy, (), Meta>(&marked, &mut (), &t.meta));
    if spy.max.get() > end {
        return bad("call decoding has read beyond the announced end", detail(lines(), &t.meta.reg, end, spy.max.get()));
    }
    match (&cw, &cg) {
        (CallWant::Ok(w), Act::Ok(g)) if norm_call(w) == norm_call(g) => cov.kind("call decoded"),
        (CallWant::NotACall, Act::Err(SignableError::NotACall(x))) if *x == t.meta.call => cov.kind("not a call"),
        (CallWant::Left(at), Act::Err(SignableError::SomeDataNotUsedCall { from, to })) if from == at && *to == end => cov.kind("left-over bytes in call"),
        (CallWant::Parse(_), Act::Err(SignableError::Parsing(_))) => cov.kind("call not decodeable"),
        _ => return bad("call decoding differs", detail(lines(), &t.meta.reg, cw, cg)),
    }
    // extensions
    let ew = ext_oracle(&t.meta, &b, end, t.genesis);
    if let Ex::Parse(RErr::Fuel) = ew {
        return Ok(());
    }
    let eg = guard(|| decode_extensions::<Spy, (), Meta>(&marked, &mut (), &t.meta, t.genesis));
    match (&ew, &eg) {
        (Ex::Ok(w, _), Act::Ok(g)) if w.len() == g.len() => {
            let n = Norm { roles: false, groups: true, calls: true };
            if w.iter().map(|x| n.ext(x)).collect::<Vec<_>>() != g.iter().map(|x| n.ext(x)).collect::<Vec<_>>() {
                return bad("extensions differ", detail(lines(), &t.meta.reg, ew, eg));
            }
        }
        (Ex::Parse(RErr::Fuel), _) => {}
        (Ex::Ok(..), _) | (_, Act::Ok(_)) | (_, Act::Panic(_)) => return bad("extensions acceptance differs", detail(lines(), &t.meta.reg, ew, eg)),
        _ => {}
    }
    // both together
    let pg = guard(|| parse_transaction::<&[u8], (), Meta>(&&b[..], &mut (), &t.meta, t.genesis));
    match (&ew, &pg) {
        (Ex::Ok(..), Act::Ok(p)) => match (&p.call_result, &cw) {
            (Ok(a), CallWant::Ok(w)) if norm_call(a) == norm_call(w) => cov.kind("transaction decoded"),
            (Err(_), CallWant::Ok(_)) | (Ok(_), _) => return bad("call in parsed transaction differs", detail(lines(), &t.meta.reg, cw, pg)),
            _ => {}
        },
        (Ex::Parse(RErr::Fuel), _) => {}
        (Ex::Ok(..), _) | (_, Act::Ok(_)) | (_, Act::Panic(_)) => return bad("transaction acceptance differs", detail(lines(), &t.meta.reg, ew, pg)),
        _ => {}
    }
    // without prefix
    let (uw, up) = call_oracle(&t.meta, &b[start..], 0);
    if uw == CallWant::Parse(RErr::Fuel) || matches!(ext_oracle(&t.meta, &b[start..], up, t.genesis), Ex::Parse(RErr::Fuel)) {
        return Ok(());
    }
    if let CallWant::Ok(w) = &uw {
        let ew = ext_oracle(&t.meta, &b[start..], up, t.genesis);
        let ug = guard(|| parse_transaction_unmarked::<&[u8], (), Meta>(&&b[start..], &mut (), &t.meta, t.genesis));
        match (&ew, &ug) {
            (Ex::Ok(e, _), Act::Ok(g)) if norm_call(w) == norm_call(&g.call) && e.len() == g.extensions.len() => {}
            (Ex::Parse(RErr::Fuel), _) => {}
            (Ex::Ok(..), _) | (_, Act::Ok(_)) | (_, Act::Panic(_)) => {
                return bad("unmarked transaction differs", detail(lines(), &t.meta.reg, ew, ug))
            }
            _ => {}
        }
    }
    cov.nontrivial(fnv(&b), || format!("{} split at {start} and {end}", hex::encode(&b)));
    Ok(())
}

// -------------------------------------------------------------------- C07

fn entry(ty: v14::StorageEntryType<PortableForm>, docs: Vec<String>) -> v14::StorageEntryMetadata<PortableForm> {
    v14::StorageEntryMetadata { name: "E".into(), modifier: v14::StorageEntryModifier::Default, ty, default: vec![], docs }
}
/// Number of bytes left over: few, or one the sources mention.
fn tail_len(r: &mut Rng) -> usize {
    if r.chance(1, 30) {
        (dict::num(r, 70_000) as usize).max(1)
    } else {
        r.range(1, 4)
    }
}
fn tail_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    if r.chance(1, 4) {
        vec![*r.pick(&[0, 0xff, 1, 0x20]); n]
    } else {
        r.bytes(n)
    }
}
pub fn c07(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let extra = if r.chance(1, 3) { 0 } else { tail_len(r) };
    let tail = tail_bytes(r, extra);
    if i % 4 == 3 {
        // transactions
        let t = tx(r, true);
        let (cw, cp) = call_oracle(&t.meta, &t.call, 0);
        if !matches!(cw, CallWant::Ok(_)) || cp != t.call.len() {
            cov.kind("skipped");
            return Ok(());
        }
        let in_call = r.chance(1, 2);
        let mut call = t.call.clone();
        let mut ext = t.ext.clone();
        if !matches!(ext_oracle(&t.meta, &ext, 0, t.genesis), Ex::Ok(..)) {
            cov.kind("skipped");
            return Ok(());
        }
        if in_call {
            call.extend(&tail)
        } else {
            ext.extend(&tail)
        }
        let mut b = enc_compact(call.len() as u128);
        let start = b.len();
        b.extend(&call);
        let end = b.len();
        b.extend(&ext);
        let data: &[u8] = &b;
        let lines = vec![format!("transaction {} with {extra} unused byte(s) in {}", hex::encode(&b), if in_call { "call" } else { "extensions" })];
        let marked = match guard(|| MarkedData::<&[u8], (), Meta>::mark(&data, &mut ())) {
            Act::Ok(m) => m,
            Act::Err(e) => return bad("not split", detail(lines, &t.meta.reg, "", e)),
            Act::Panic(p) => return bad("panic", detail(lines, &t.meta.reg, "", p)),
        };
        if in_call {
            let got = guard(|| decode_as_call(&marked, &mut (), &t.meta));
            let from = start + t.call.len();
            match &got {
                Act::Ok(_) if extra == 0 => {}
                Act::Err(SignableError::SomeDataNotUsedCall { from: f, to }) if extra > 0 && *f == from && *to == end => {}
                _ => return bad("left-over bytes in call", detail(lines, &t.meta.reg, format!("unused from {from} to {end}"), got)),
            }
        } else {
            let got = guard(|| decode_extensions(&marked, &mut (), &t.meta, t.genesis));
            let from = end + t.ext.len();
            match &got {
                Act::Ok(_) if extra == 0 => {}
                Act::Err(SignableError::SomeDataNotUsedExtensions { from: f }) if extra > 0 && *f == from => {}
                _ => return bad("left-over bytes in extensions", detail(lines, &t.meta.reg, format!("unused from {from}"), got)),
            }
        }
        cov.kind(if in_call { "call" } else { "extensions" });
        cov.nontrivial(fnv(&b), || hex::encode(&b));
        return Ok(());
    }
    let s = scene(r, if i % 5 == 0 { Flavor::All } else { Flavor::Clean }, 0);
    let (want, wp, _) = reference(&s.reg, s.id, &s.b, s.pos, Role::None);
    if want.is_err() {
        cov.kind("skipped");
        return Ok(());
    }
    let mut b = s.b[s.pos..wp].to_vec();
    let used = b.len();
    b.extend(&tail);
    // does it still end there
    let (want, wp, _) = reference(&s.reg, s.id, &b, 0, Role::None);
    if want.is_err() || wp != used {
        return Ok(());
    }
    let data: &[u8] = &b;
    let lines = |w: &str| vec![format!("{w}, type {}, data {}, {used} bytes used", s.id, hex::encode(&b))];
    match i % 4 {
        0 => {
            let got = guard(|| decode_all_as_type::<&[u8], (), Meta>(&sym(s.id), &data, &mut (), &s.reg));
            match &got {
                Act::Ok(_) if extra == 0 => {}
                Act::Err(ParserError::SomeDataNotUsedBlob { from }) if extra > 0 && *from == used => {}
                _ => return bad("left-over bytes in a blob", detail(lines("blob"), &s.reg, used, got)),
            }
            cov.kind("blob")
        }
        1 => {
            let e = entry(v14::StorageEntryType::Plain(sym(s.id)), vec![]);
            let key = [0u8; 32];
            let got = guard(|| decode_as_storage_entry::<&[u8], (), Meta>(&&key[..], &data, &mut (), &e, &s.reg));
            match &got {
                Act::Ok(_) if extra == 0 => {}
                Act::Err(StorageError::ParsingValue(ParserError::SomeDataNotUsedBlob { from })) if extra > 0 && *from == used => {}
                _ => return bad("left-over bytes in a storage value", detail(lines("value"), &s.reg, used, got)),
            }
            cov.kind("storage value")
        }
        _ => {
            let got = guard(|| process_key_mapped::<&[u8], (), Meta>(&[v14::StorageHasher::Identity], &sym(s.id), &data, &mut (), 0, &s.reg));
            match &got {
                Act::Ok(_) if extra == 0 => {}
                Act::Err(StorageError::KeyPartsUnused) if extra > 0 => {}
                _ => return bad("left-over bytes in a storage key", detail(lines("key"), &s.reg, used, got)),
            }
            cov.kind("storage key")
        }
    }
    cov.nontrivial(fnv(&b) ^ s.id as u64, || hex::encode(&b));
    Ok(())
}

// -------------------------------------------------------------------- C15

#[derive(Debug)]
struct StScene {
    reg: Reg,
    entry: v14::StorageEntryMetadata<PortableForm>,
    key: Vec<u8>,
    value: Vec<u8>,
}
const HASHERS: [v14::StorageHasher; 7] = [
    v14::StorageHasher::Blake2_128,
    v14::StorageHasher::Blake2_256,
    v14::StorageHasher::Blake2_128Concat,
    v14::StorageHasher::Twox128,
    v14::StorageHasher::Twox256,
    v14::StorageHasher::Twox64Concat,
    v14::StorageHasher::Identity,
];
fn storage(r: &mut Rng, honest: bool) -> StScene {
    let flavor = if !honest && r.chance(1, 3) { Flavor::All } else { Flavor::Clean };
    let mut g = Gen::new(r, flavor);
    let v = g.gen(2);
    let mut value = g.data(v);
    if !honest {
        g.damage(&mut value, 2)
    }
    let mut key = g.r.bytes(32);
    let docs = g.r.below(3);
    let docs = strs(&["a", "b", "c"][..docs]);
    if g.r.chance(1, 8) {
        if g.r.chance(1, 3) && !honest {
            let n = if g.r.chance(1, 2) { g.r.below(4) } else { tail_len(g.r) };
            let x = tail_bytes(g.r, n);
            key.extend(x);
            if g.r.chance(1, 4) {
                // in all, a number the sources mention
                let n = dict::num(g.r, 70_000) as usize;
                key.resize(n.max(32), 0)
            }
        }
        let reg = take(&mut g);
        return StScene { reg, entry: entry(v14::StorageEntryType::Plain(sym(v)), docs), key, value };
    }
    let n = *g.r.pick(&[1, 1, 1, 2, 2, 3, 0]);
    let mut hashers: Vec<v14::StorageHasher> = (0..n).map(|_| HASHERS[g.r.below(7)].clone()).collect();
    let members: Vec<u32> = (0..n).map(|_| g.gen(2)).collect();
    for (h, m) in hashers.iter().zip(&members) {
        let d = g.data(*m);
        match h {
            v14::StorageHasher::Blake2_128 | v14::StorageHasher::Twox128 => key.extend(g.r.bytes(16)),
            v14::StorageHasher::Blake2_256 | v14::StorageHasher::Twox256 => key.extend(g.r.bytes(32)),
            v14::StorageHasher::Blake2_128Concat => {
                let mut x = blake2_128(&d).to_vec();
                if !honest && g.r.chance(1, 6) {
                    let k = g.r.below(16);
                    x[k] ^= 1 << g.r.below(8);
                }
                key.extend(x);
                key.extend(d)
            }
            v14::StorageHasher::Twox64Concat => {
                let mut x = twox_64(&d).to_vec();
                if !honest && g.r.chance(1, 6) {
                    let k = g.r.below(8);
                    x[k] ^= 1 << g.r.below(8);
                }
                key.extend(x);
                key.extend(d)
            }
            v14::StorageHasher::Identity => key.extend(d),
        }
    }
    let key_ty = if n == 1 {
        members[0]
    } else if !honest && g.r.chance(1, 10) {
        g.gen(1)
    } else {
        let p = if g.r.chance(1, 3) { path(&["k", "Key"]) } else { path(&[]) };
        let mut m = members.clone();
        if !honest && g.r.chance(1, 10) {
            m.pop();
        }
        let t = ty(p, TypeDefTuple::new_portable(m.iter().map(|x| sym(*x))), strs(&["key docs"][..g.r.below(2)]));
        g.add(t)
    };
    if !honest {
        match g.r.below(8) {
            0 => {
                let i = 32 + g.r.below(key.len() - 31);
                key.truncate(i)
            }
            1 => {
                let n = tail_len(g.r);
                let x = tail_bytes(g.r, n);
                key.extend(x)
            }
            2 if n > 1 => hashers.swap(0, 1),
            3 => {
                let i = g.r.below(key.len());
                key[i] ^= 1 << g.r.below(8)
            }
            4 if g.r.chance(1, 4) => key.truncate(g.r.below(33)),
            _ => {}
        }
    }
    let reg = take(&mut g);
    StScene { reg, entry: entry(v14::StorageEntryType::Map { hashers, key: sym(key_ty), value: sym(v) }, docs), key, value }
}
#[derive(Debug)]
enum St15 {
    Ok(Storage),
    Prefix,
    PlainExceeds,
    Mismatch,
    NotTuple,
    Number,
    Unused,
    Key(RErr),
    Value,
    Fuel,
}
/// the hash in the field of its kind, which holds a hash of its length
fn fit<const N: usize>(b: Vec<u8>) -> [u8; N] {
    let mut a = [0x5a; N];
    for (x, y) in a.iter_mut().zip(b) {
        *x = y
    }
    a
}
fn one_part(reg: &Reg, h: &v14::StorageHasher, id: u32, b: &[u8], pos: &mut usize) -> Result<KeyPart, St15> {
    let mut cut = |n: usize| -> Result<Vec<u8>, St15> {
        let s = b.get(*pos..*pos + n).ok_or(St15::Key(RErr::Data))?.to_vec();
        *pos += n;
        Ok(s)
    };
    let raw = |hash: Hash| Ok(KeyPart::Hash(HashData { hash, type_id: id }));
    let hash = match h {
        v14::StorageHasher::Blake2_128 => return raw(Hash::Blake2_128(fit(cut(16)?))),
        v14::StorageHasher::Blake2_256 => return raw(Hash::Blake2_256(fit(cut(32)?))),
        v14::StorageHasher::Twox128 => return raw(Hash::Twox128(fit(cut(16)?))),
        v14::StorageHasher::Twox256 => return raw(Hash::Twox256(fit(cut(32)?))),
        v14::StorageHasher::Blake2_128Concat => cut(16)?,
        v14::StorageHasher::Twox64Concat => cut(8)?,
        v14::StorageHasher::Identity => vec![],
    };
    let from = *pos;
    let d = Dec::new(&reg.0, b);
    let x = d.decode(id, pos, St::new()).map_err(|e| if e == RErr::Fuel { St15::Fuel } else { St15::Key(e) })?;
    let used = &b[from..*pos];
    let real = match h {
        v14::StorageHasher::Blake2_128Concat => blake2_128(used).to_vec(),
        v14::StorageHasher::Twox64Concat => twox_64(used).to_vec(),
        _ => vec![],
    };
    if real != hash {
        return Err(St15::Mismatch);
    }
    Ok(KeyPart::Parsed(x))
}
fn key_oracle(reg: &Reg, hashers: &[v14::StorageHasher], key_ty: u32, b: &[u8], pos: usize) -> Result<KeyData, St15> {
    let mut p = pos;
    let out = if hashers.len() == 1 {
        KeyData::SingleHash { content: one_part(reg, &hashers[0], key_ty, b, &mut p)? }
    } else {
        let t = reg.0.get(&key_ty).ok_or(St15::Key(RErr::Registry))?;
        let TypeDef::Tuple(m) = &t.type_def else { return Err(St15::NotTuple) };
        if m.fields.len() != hashers.len() {
            return Err(St15::Number);
        }
        let mut content = vec![];
        for (h, f) in hashers.iter().zip(&m.fields) {
            content.push(one_part(reg, h, f.id, b, &mut p)?)
        }
        KeyData::TupleHash { content, info: info(t) }
    };
    if p != b.len() {
        return Err(St15::Unused);
    }
    Ok(out)
}
fn storage_oracle(s: &StScene) -> St15 {
    if s.key.len() < 32 {
        return St15::Prefix;
    }
    let (key, v) = match &s.entry.ty {
        v14::StorageEntryType::Plain(v) => {
            if s.key.len() != 32 {
                return St15::PlainExceeds;
            }
            (KeyData::Plain, v.id)
        }
        v14::StorageEntryType::Map { hashers, key, value } => match key_oracle(&s.reg, hashers, key.id, &s.key, 32) {
            Ok(k) => (k, value.id),
            Err(e) => return e,
        },
    };
    let (x, p, _) = reference(&s.reg, v, &s.value, 0, Role::None);
    match x {
        Err(RErr::Fuel) => St15::Fuel,
        Ok(value) if p == s.value.len() => St15::Ok(Storage { key, value, docs: docs(&s.entry.docs) }),
        _ => St15::Value,
    }
}
fn norm_storage(s: &Storage) -> Storage {
    let n = Norm { roles: false, groups: true, calls: true };
    let part = |k: &KeyPart| match k {
        KeyPart::Parsed(x) => KeyPart::Parsed(n.ext(x)),
        KeyPart::Hash(h) => KeyPart::Hash(HashData {
            type_id: h.type_id,
            hash: match &h.hash {
                Hash::Blake2_128(x) => Hash::Blake2_128(*x),
                Hash::Blake2_256(x) => Hash::Blake2_256(*x),
                Hash::Twox128(x) => Hash::Twox128(*x),
                Hash::Twox256(x) => Hash::Twox256(*x),
            },
        }),
    };
    Storage {
        key: match &s.key {
            KeyData::Plain => KeyData::Plain,
            KeyData::SingleHash { content } => KeyData::SingleHash { content: part(content) },
            KeyData::TupleHash { content, info } => KeyData::TupleHash { content: content.iter().map(part).collect(), info: info.clone() },
        },
        value: n.ext(&s.value),
        docs: s.docs.clone(),
    }
}
fn storage_lines(s: &StScene) -> Vec<String> {
    vec![format!("entry {:?}", s.entry.ty), format!("key {}", hex::encode(&s.key)), format!("value {}", hex::encode(&s.value))]
}
pub fn c15(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let s = storage(r, i % 2 == 0);
    let want = storage_oracle(&s);
    if let St15::Fuel = want {
        return Ok(());
    }
    let got = guard(|| {
        decode_as_storage_entry::<&[u8], (), Meta>(&&s.key[..], &&s.value[..], &mut (), &s.entry, &s.reg)
    });
    use StorageError as E;
    let ok = match (&want, &got) {
        (St15::Ok(w), Act::Ok(g)) => norm_storage(w) == norm_storage(g),
        (St15::Prefix, Act::Err(E::KeyShorterThanPrefix)) => true,
        (St15::PlainExceeds, Act::Err(E::PlainKeyExceedsPrefix)) => true,
        (St15::Mismatch, Act::Err(E::KeyPartHashMismatch)) => true,
        (St15::NotTuple, Act::Err(E::MultipleHashesNotATuple)) => true,
        (St15::Number, Act::Err(E::MultipleHashesNumberMismatch)) => true,
        (St15::Unused, Act::Err(E::KeyPartsUnused)) => true,
        (St15::Key(_), Act::Err(E::ParsingKey(_))) => true,
        (St15::Value, Act::Err(E::ParsingValue(_))) => true,
        _ => false,
    };
    if !ok {
        return bad("storage entry differs", detail(storage_lines(&s), &s.reg, want, got));
    }
    cov.kind(match &want {
        St15::Ok(Storage { key: KeyData::Plain, .. }) => "plain",
        St15::Ok(Storage { key: KeyData::SingleHash { .. }, .. }) => "one hasher",
        St15::Ok(Storage { key: KeyData::TupleHash { .. }, .. }) => "several hashers",
        St15::Mismatch => "hash mismatch",
        St15::NotTuple | St15::Number => "wrong arity",
        St15::Unused | St15::PlainExceeds => "unused",
        _ => "rejected",
    });
    cov.nontrivial(fnv(&s.key) ^ fnv(format!("{:?}", s.entry.ty).as_bytes()), || short((&s.entry.ty, hex::encode(&s.key))));
    Ok(())
}

// -------------------------------------------------------------------- C16

fn xt_scene(r: &mut Rng, honest: bool) -> (Meta, Vec<u8>) {
    let mut g = Gen::new(r, if honest { Flavor::Clean } else { Flavor::All });
    let call = if !honest && g.r.chance(1, 8) { g.gen(2) } else { g.pallet_item(true, 2) };
    let address = g.gen(2);
    let signature = if g.r.chance(1, 2) { g.multisig() } else { g.gen(1) };
    let extra = g.gen(2);
    let signed = g.r.chance(2, 3);
    let mut version = 4u8;
    if g.r.chance(1, 6) {
        version = g.r.next() as u8 & 0x7f
    }
    let mut vb = version | if signed { 0x80 } else { 0 };
    let mut body = vec![];
    if signed {
        body.extend(g.data(address));
        body.extend(g.data(signature));
        body.extend(g.data(extra));
    }
    body.extend(g.data(call));
    let mut said_more: i64 = 0;
    if !honest {
        match g.r.below(9) {
            0 => vb ^= 1 << g.r.below(8),
            1 => said_more = 1,
            2 => said_more = -1,
            3 => g.damage(&mut body, 10),
            4 => {
                let n = tail_len(g.r);
                let x = tail_bytes(g.r, n);
                body.extend(x)
            }
            5 => version = g.r.next() as u8,
            6 => vb ^= 0x80,
            7 => said_more = g.r.next() as u32 as i64,
            _ => {}
        }
    }
    body.insert(0, vb);
    if !honest && g.r.chance(1, 40) {
        body.clear()
    }
    let mut b = enc_compact((body.len() as i64 + said_more).clamp(0, u32::MAX as i64) as u128);
    b.extend(body);
    if !honest && g.r.chance(1, 20) {
        g.damage(&mut b, 10)
    }
    let reg = take(&mut g);
    (
        Meta { reg, call, address, signature, extra, ext_version: version, ..Default::default() },
        b,
    )
}
#[derive(Debug)]
enum Xt {
    Ok(Vec<ExtendedData>, Call),
    /// all parts are there, something is left
    Left(Vec<ExtendedData>, Call, usize),
    NoCompact,
    Length,
    Version,
    NotACall,
    Parse(RErr),
}
fn xt_oracle(m: &Meta, b: &[u8]) -> Xt {
    let Some((len, start)) = compact(b, u32::MAX as u128) else { return Xt::NoCompact };
    if start as u128 + len != b.len() as u128 {
        return Xt::Length;
    }
    let Some(vb) = b.get(start).copied() else { return Xt::Parse(RErr::Data) };
    if vb & 0x7f != m.ext_version {
        return Xt::Version;
    }
    let mut p = start + 1;
    let d = Dec::new(&m.reg.0, b);
    let mut parts = vec![];
    if vb >= 0x80 {
        for t in [m.address, m.signature, m.extra] {
            match d.decode(t, &mut p, St::new()) {
                Ok(x) => parts.push(x),
                Err(e) => return Xt::Parse(e),
            }
        }
    }
    match d.decode(m.call, &mut p, St::new()) {
        Ok(ExtendedData { data: ParsedData::Call(c), .. }) => {
            if p == b.len() {
                Xt::Ok(parts, c)
            } else {
                Xt::Left(parts, c, p)
            }
        }
        Ok(_) => Xt::NotACall,
        Err(e) => Xt::Parse(e),
    }
}
fn same_parts(parts: &[ExtendedData], call: &Call, g: &UncheckedExtrinsic) -> bool {
    let n = Norm { roles: false, groups: true, calls: true };
    match g {
        UncheckedExtrinsic::Signed { address, signature, extra, call: c } => {
            parts.len() == 3
                && n.ext(&parts[0]) == n.ext(address)
                && n.ext(&parts[1]) == n.ext(signature)
                && n.ext(&parts[2]) == n.ext(extra)
                && norm_call(call) == norm_call(c)
        }
        UncheckedExtrinsic::Unsigned { call: c } => parts.is_empty() && norm_call(call) == norm_call(c),
    }
}
pub fn c16(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let (m, b) = xt_scene(r, i % 2 == 0);
    let want = xt_oracle(&m, &b);
    if let Xt::Parse(RErr::Fuel) = want {
        return Ok(());
    }
    let got = guard(|| decode_as_unchecked_extrinsic::<&[u8], (), Meta>(&&b[..], &mut (), &m));
    let lines = || {
        vec![
            format!("extrinsic {}", hex::encode(&b)),
            format!("address {}, signature {}, extra {}, call {}, version {}", m.address, m.signature, m.extra, m.call, m.ext_version),
        ]
    };
    use UncheckedExtrinsicError as E;
    match (&want, &got) {
        (Xt::Ok(p, c), Act::Ok(g)) if same_parts(p, c, g) => cov.kind(if p.is_empty() { "unsigned" } else { "signed" }),
        (Xt::NoCompact, Act::Err(_)) => cov.kind("no length"),
        (Xt::Length, Act::Err(E::Parsing(_))) => cov.kind("wrong length"),
        (Xt::Version, Act::Err(E::VersionMismatch { .. })) => cov.kind("wrong version"),
        (Xt::NotACall, Act::Err(E::UnexpectedCallTy { .. })) => cov.kind("not a call"),
        (Xt::Parse(_), Act::Err(E::Parsing(_))) => cov.kind("not decodeable"),
        (Xt::Left(..), Act::Err(_)) => cov.kind("left-over bytes"),
        (Xt::Left(p, c, at), Act::Ok(g)) if same_parts(p, c, g) => {
            cov.kind("left-over bytes after call accepted");
            let mut d = detail(lines(), &m.reg, format!("unused from {at}"), "accepted");
            d.truncate(8);
            return Err(Bad { what: format!("{} byte(s) after the call are not reported", b.len() - at), detail: d, known: Some("C16-bytes-after-call") });
        }
        _ => return bad("unchecked extrinsic differs", detail(lines(), &m.reg, want, got)),
    }
    cov.nontrivial(fnv(&b) ^ m.ext_version as u64, || hex::encode(&b));
    Ok(())
}

// -------------------------------------------------------------------- C17

fn dense(g: &mut Gen, map: &mut Vec<u32>) -> (PortableRegistry, BTreeMap<u32, Ty>) {
    // ids in generated registry are arbitrary; portable registry has to be dense
    *map = g.reg.keys().copied().collect();
    let at = |id: u32| map.iter().position(|x| *x == id).map(|x| x as u32).unwrap_or(1_000_000);
    let mut out = BTreeMap::new();
    for (i, k) in map.iter().enumerate() {
        let mut t = g.reg[k].clone();
        let re = |s: &Sym| sym(at(s.id));
        t.type_def = match t.type_def {
            TypeDef::Composite(mut c) => {
                for f in c.fields.iter_mut() {
                    f.ty = re(&f.ty)
                }
                c.into()
            }
            TypeDef::Variant(mut v) => {
                for v in v.variants.iter_mut() {
                    for f in v.fields.iter_mut() {
                        f.ty = re(&f.ty)
                    }
                }
                v.into()
            }
            TypeDef::Sequence(s) => TypeDefSequence::new(re(&s.type_param)).into(),
            TypeDef::Array(a) => TypeDefArray::new(a.len, re(&a.type_param)).into(),
            TypeDef::Tuple(t) => TypeDefTuple::new_portable(t.fields.iter().map(re)).into(),
            TypeDef::Compact(c) => scale_info::TypeDefCompact::new(re(&c.type_param)).into(),
            TypeDef::BitSequence(b) => scale_info::TypeDefBitSequence::new_portable(re(&b.bit_store_type), re(&b.bit_order_type)).into(),
            TypeDef::Primitive(p) => p.into(),
        };
        t.type_params = t.type_params.iter().map(|p| TypeParameter::new_portable(p.name.clone(), p.ty.as_ref().map(re))).collect();
        out.insert(i as u32, t);
    }
    let reg = PortableRegistry { types: out.iter().map(|(i, t)| scale_info::PortableType::new(*i, t.clone())).collect() };
    (reg, out)
}
pub fn c17(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let v15m = i % 2 == 1;
    let odd = i % 3 != 0;
    let mut g = Gen::new(r, Flavor::Clean);
    // version constant
    let uints = [P::U8, P::U16, P::U32, P::U64, P::U128];
    let mut fields = vec![];
    let mut list = vec![0usize, 1, 2, 3];
    if odd {
        match g.r.below(8) {
            0 => {
                let k = g.r.below(4);
                list.remove(k);
            }
            1 => {
                let k = g.r.below(2);
                list.push(k)
            }
            2 => list.push(4),
            _ => {}
        }
    }
    for k in (1..list.len()).rev() {
        let j = g.r.below(k + 1);
        list.swap(k, j)
    }
    for k in list {
        let f = match k {
            0 => {
                let t = g.prim(P::Str);
                let w = if odd && g.r.chance(1, 10) { 1 } else { 0 };
                let t = wrap(&mut g, t, w);
                field(Some("spec_name"), t, None)
            }
            1 => {
                let p = g.r.pick(&uints).clone();
                let mut t = g.prim(p);
                if odd && g.r.chance(1, 8) {
                    t = g.add(plain(scale_info::TypeDefCompact::new(sym(t))))
                }
                if odd && g.r.chance(1, 10) {
                    t = wrap(&mut g, t, 1)
                }
                if odd && g.r.chance(1, 12) {
                    t = g.prim(P::I32)
                }
                field(Some("spec_version"), t, None)
            }
            2 => {
                let t = g.prim(P::Str);
                field(Some("impl_name"), t, None)
            }
            3 => {
                let t = g.prim(P::U32);
                field(Some("transaction_version"), t, None)
            }
            _ => {
                let t = g.gen(2);
                let (a, b) = g.field_names();
                scale_info::Field::new(a, sym(t), b, vec![])
            }
        };
        fields.push(f)
    }
    let mut vt = g.add(ty(path(&["sp_version", "RuntimeVersion"]), TypeDefComposite::new(fields), vec![]));
    if odd && g.r.chance(1, 10) {
        vt = g.gen(2)
    }
    let mut value = g.data(vt);
    let elsewhere = if g.r.chance(1, 2) { g.data(vt) } else { vec![0xffu8, 1, 2] };
    if odd {
        g.damage(&mut value, 2)
    }
    // extrinsic type
    let signed = odd && g.r.chance(1, 12);
    let u8t = g.prim(if signed { P::I8 } else { P::U8 });
    let mut inner = g.add(plain(TypeDefSequence::new(sym(u8t))));
    if odd && g.r.chance(1, 14) {
        inner = g.add(plain(TypeDefArray::new(5, sym(u8t))))
    }
    let mut params: Vec<(String, Option<u32>)> = vec![];
    for n in ["Address", "Call", "Signature", "Extra"] {
        let t = g.prim(P::Bool);
        params.push((n.to_string(), Some(t)))
    }
    if odd {
        match g.r.below(8) {
            0 => {
                let k = g.r.below(4);
                params.remove(k);
            }
            1 => {
                let k = g.r.below(4);
                params[k].1 = None
            }
            2 => {
                let k = g.r.below(4);
                params[k].0 = if g.r.chance(1, 3) { other_word(g.r, &PARAMS) } else { g.r.pick(&["address", "Cal", "Signature ", "Ext"]).to_string() }
            }
            3 => {
                let t = g.prim(P::Bool);
                params.push((if g.r.chance(1, 2) { other_word(g.r, &PARAMS) } else { g.r.pick(&["T", "Other", "Nonce"]).to_string() }, Some(t)))
            }
            _ => {}
        }
    }
    for k in (1..params.len()).rev() {
        let j = g.r.below(k + 1);
        params.swap(k, j)
    }
    let ps: Vec<TypeParameter<PortableForm>> = params.iter().map(|(n, t)| TypeParameter::new_portable(n.to_string(), t.map(sym))).collect();
    let xt_path = path(&["sp_runtime", "generic", "unchecked_extrinsic", "UncheckedExtrinsic"]);
    // shapes: known path over composite, known path over vector, plain vector with parameters, wrapper without parameters
    let shape = g.r.below(5);
    let mut xt = match shape {
        0 | 1 => {
            let mut fs = vec![field(None, inner, None)];
            if odd && g.r.chance(1, 10) {
                fs.push(field(None, u8t, None))
            }
            let mut t = scale_info::Type::new(xt_path, ps, TypeDefComposite::new(fs), vec![]);
            t.docs.clear();
            g.add(t)
        }
        2 => g.add(scale_info::Type::new(xt_path, ps, TypeDefSequence::new(sym(u8t)), vec![])),
        3 => g.add(scale_info::Type::new(path(&["o", "Xt"]), ps, TypeDefSequence::new(sym(u8t)), vec![])),
        _ => g.add(scale_info::Type::new(path(&["o", "Xt"]), ps, TypeDefComposite::new(vec![field(None, inner, None)]), vec![])),
    };
    for _ in 0..g.r.below(3) {
        if g.r.chance(1, 3) {
            xt = g.add(ty(path(&["o", "Outer"]), TypeDefComposite::new(vec![field(None, xt, None)]), vec![]))
        }
    }
    let mut map = vec![];
    let (preg, reg) = dense(&mut g, &mut map);
    let at = |id: u32| map.iter().position(|x| *x == id).map(|x| x as u32).unwrap_or(1_000_000);
    let (vt, xt) = (at(vt), at(xt));
    let ver_const = (("Version").to_string(), vt, value.clone());
    let mut consts = vec![("BlockLength".to_string(), 0u32, vec![1u8]), ver_const.clone(), ("SS58Prefix".to_string(), 0, vec![])];
    let mut names = strs(&["Balances", "System", "Staking"]);
    let mut have = true;
    if odd {
        match r.below(10) {
            0 => {
                names.remove(1);
                have = false
            }
            1 => {
                consts.remove(1);
                have = false
            }
            2 => {
                consts[1].0 = "version".into();
                have = false
            }
            3 => {
                names[1] = "system".into();
                have = false
            }
            _ => {}
        }
    }
    if r.chance(1, 3) {
        let n = if r.chance(1, 2) { other_word(r, &["Version"]) } else { r.pick(&["Version2", "SpecVersion", "AVersion", "VERSION", ""]).to_string() };
        consts.push((n, vt, elsewhere.clone()))
    }
    if r.chance(1, 3) {
        names.push(if r.chance(1, 2) { other_word(r, &["System"]) } else { r.pick(&["SystemTokens", "System2", "ASystem", "Sys", "SYSTEM ", ""]).to_string() })
    }
    let rot = r.below(4);
    let by = rot % consts.len();
    consts.rotate_left(by);
    let rot = r.below(4);
    let by = rot % names.len();
    names.rotate_left(by);
    // other pallets have other Version constants
    let other = vec![("Version".to_string(), vt, elsewhere)];
    let exts: Vec<(String, u32, u32)> = (0..r.below(3)).map(|k| (EXT_NAMES[k].to_string(), r.below(5) as u32, r.below(5) as u32)).collect();
    let xt_version = r.next() as u8;
    let four: Vec<u32> = (0..4).map(|_| r.below(9) as u32).collect();

    let mref: BTreeMap<u32, Ty> = reg.clone();
    let mreg = Reg(Rc::new(mref));
    // what is expected of the version
    let (refv, p, _) = reference(&mreg, vt, &value, 0, Role::None);
    if refv == Err(RErr::Fuel) {
        return Ok(());
    }
    let want_ver: Option<(String, String)> = if !have {
        None
    } else {
        match refv {
            Ok(ExtendedData { data: ParsedData::Composite(fs), .. }) if p == value.len() => {
                let mut vs = vec![];
                let mut ns = vec![];
                for f in &fs {
                    match &f.data.data {
                        ParsedData::PrimitiveU8 { value, specialty: SU::SpecVersion } => vs.push(value.to_string()),
                        ParsedData::PrimitiveU16 { value, specialty: SU::SpecVersion } => vs.push(value.to_string()),
                        ParsedData::PrimitiveU32 { value, specialty: SU::SpecVersion } => vs.push(value.to_string()),
                        ParsedData::PrimitiveU64 { value, specialty: SU::SpecVersion } => vs.push(value.to_string()),
                        ParsedData::PrimitiveU128 { value, specialty: SU::SpecVersion } => vs.push(value.to_string()),
                        ParsedData::Text { text, specialty: substrate_parser::special_indicators::SpecialtyStr::SpecName } => ns.push(text.clone()),
                        _ => {}
                    }
                }
                if vs.len() == 1 && ns.len() == 1 {
                    Some((vs.remove(0), ns.remove(0)))
                } else {
                    None
                }
            }
            _ => None,
        }
    };
    let lines = vec![
        format!("pallets {names:?}, constants of System {consts:?}"),
        format!("extrinsic type {xt}, parameters {params:?}"),
        format!("version constant type {vt}, value {}", hex::encode(&value)),
    ];
    macro_rules! pallets {
        ($m:ident) => {
            names
                .iter()
                .map(|n| $m::PalletMetadata {
                    name: n.to_string(),
                    storage: None,
                    calls: None,
                    event: None,
                    error: None,
                    index: 0,
                    constants: (if n.to_lowercase() == "system" { &consts } else { &other })
                        .iter()
                        .map(|(n, t, v)| v14::PalletConstantMetadata { name: n.clone(), ty: sym(*t), value: v.clone(), docs: vec![] })
                        .collect(),
                    ..pallet_base!($m)
                })
                .collect::<Vec<_>>()
        };
    }
    macro_rules! pallet_base {
        (v14) => {
            v14::PalletMetadata { name: String::new(), storage: None, calls: None, event: None, error: None, index: 0, constants: vec![] }
        };
        (v15) => {
            v15::PalletMetadata { name: String::new(), storage: None, calls: None, event: None, error: None, index: 0, constants: vec![], docs: vec![] }
        };
    }
    macro_rules! ext_list {
        ($m:ident) => {
            exts.iter()
                .map(|(n, t, a)| $m::SignedExtensionMetadata { identifier: n.clone(), ty: sym(*t), additional_signed: sym(*a) })
                .collect()
        };
    }
    macro_rules! ver {
        ($meta:expr) => {{
            let got = guard(|| AsMetadata::<()>::spec_name_version(&$meta).map(|s| (s.printed_spec_version, s.spec_name)));
            match (&want_ver, &got) {
                (Some(w), Act::Ok(g)) if w == g => cov.kind("version found"),
                (None, Act::Err(_)) => cov.kind("no version"),
                _ => return bad("spec name and version differ", detail(lines, &mreg, want_ver, got)),
            }
            let got = guard(|| AsMetadata::<()>::signed_extensions(&$meta));
            let ok = match &got {
                Act::Ok(l) => {
                    l.len() == exts.len()
                        && l.iter().zip(&exts).all(|(a, b)| a.identifier == b.0 && a.ty.id == b.1 && a.additional_signed.id == b.2)
                }
                _ => false,
            };
            if !ok {
                return bad("signed extensions differ", detail(lines, &mreg, &exts, got));
            }
            let got = guard(|| AsCompleteMetadata::<()>::extrinsic_version(&$meta));
            if !matches!(got, Act::Ok(v) if v == xt_version) {
                return bad("extrinsic version differs", detail(lines, &mreg, xt_version, got));
            }
        }};
    }
    if v15m {
        let m = v15::RuntimeMetadataV15 {
            types: preg,
            pallets: pallets!(v15),
            extrinsic: v15::ExtrinsicMetadata {
                version: xt_version,
                address_ty: sym(four[0]),
                call_ty: sym(four[1]),
                signature_ty: sym(four[2]),
                extra_ty: sym(four[3]),
                signed_extensions: ext_list!(v15),
            },
            ty: sym(0),
            apis: vec![],
            outer_enums: v15::OuterEnums { call_enum_ty: sym(0), event_enum_ty: sym(0), error_enum_ty: sym(0) },
            custom: v15::CustomMetadata { map: Default::default() },
        };
        ver!(m);
        let got = guard(|| AsCompleteMetadata::<()>::extrinsic_type_params(&m));
        let ok = matches!(&got, Act::Ok(p) if p.address_ty.id == four[0] && p.call_ty.id == four[1] && p.signature_ty.id == four[2] && p.extra_ty.id == four[3]);
        if !ok {
            return bad("V15 extrinsic types differ", detail(lines, &mreg, four, got));
        }
        let got = guard(|| AsMetadata::<()>::call_ty(&m));
        if !matches!(&got, Act::Ok(c) if c.id == four[1]) {
            return bad("V15 call type differs", detail(lines, &mreg, four[1], got));
        }
    } else {
        let m = v14::RuntimeMetadataV14 {
            types: preg,
            pallets: pallets!(v14),
            extrinsic: v14::ExtrinsicMetadata { ty: sym(xt), version: xt_version, signed_extensions: ext_list!(v14) },
            ty: sym(0),
        };
        ver!(m);
        // types by parameters
        let mut id = xt;
        let is_seq = |id: u32| match &reg[&id].type_def {
            TypeDef::Sequence(s) => matches!(reg.get(&s.type_param.id).map(|t| &t.type_def), Some(TypeDef::Primitive(P::U8))),
            _ => false,
        };
        let found = loop {
            let t = &reg[&id];
            match &t.type_def {
                TypeDef::Composite(c) if c.fields.len() == 1 && known(t).is_none() => id = c.fields[0].ty.id,
                TypeDef::Composite(c) if c.fields.len() == 1 => break is_seq(c.fields[0].ty.id).then(|| t.type_params.clone()),
                TypeDef::Sequence(_) => break is_seq(id).then(|| t.type_params.clone()),
                _ => break None,
            }
        };
        let want: Option<Vec<u32>> = found.and_then(|ps| {
            ["Address", "Call", "Signature", "Extra"]
                .iter()
                .map(|n| ps.iter().find(|p| p.name == *n).and_then(|p| p.ty.map(|t| t.id)))
                .collect()
        });
        let got = guard(|| AsCompleteMetadata::<()>::extrinsic_type_params(&m).map(|p| vec![p.address_ty.id, p.call_ty.id, p.signature_ty.id, p.extra_ty.id]));
        match (&want, &got) {
            (Some(w), Act::Ok(g)) if w == g => cov.kind("types found"),
            (None, Act::Err(_)) => cov.kind("types not found"),
            _ => return bad("V14 extrinsic types differ", detail(lines, &mreg, want, got)),
        }
        let got = guard(|| AsMetadata::<()>::call_ty(&m).map(|c| c.id));
        match (&want, &got) {
            (Some(w), Act::Ok(g)) if w[1] == *g => {}
            (None, Act::Err(_)) => {}
            _ => return bad("V14 call type differs", detail(lines, &mreg, want, got)),
        }
    }
    cov.nontrivial(fnv(&value) ^ fnv(format!("{params:?}{names:?}{xt}").as_bytes()), || short(&lines));
    Ok(())
}

// -------------------------------------------------------------------- C18

fn ten(n: u32) -> BigUint {
    BigUint::from(10u8).pow(n)
}
fn one_balance(v: u128, c: substrate_parser::printing_balance::Currency, decimals: u8, unit: &str) -> Result<(), String> {
    const PRE: [(&str, i32); 11] =
        [("T", 12), ("G", 9), ("M", 6), ("k", 3), ("", 0), ("m", -3), ("u", -6), ("n", -9), ("p", -12), ("f", -15), ("a", -18)];
    let mut parts = c.number.split('.');
    let a = parts.next().unwrap_or("");
    let b = parts.next();
    if parts.next().is_some() || a.is_empty() || b == Some("") || !(a.to_string() + b.unwrap_or("")).bytes().all(|x| x.is_ascii_digit()) {
        return Err(format!("{:?} is not a number", c.number));
    }
    let b = b.unwrap_or("");
    let digits = BigUint::parse_bytes((a.to_string() + b).as_bytes(), 10).ok_or("not digits")?;
    if !c.units.ends_with(unit) {
        return Err(format!("unit name is lost in {:?}", c.units));
    }
    let prefix = &c.units[..c.units.len() - unit.len()];
    let Some((_, e)) = PRE.iter().find(|p| p.0 == prefix) else { return Err(format!("unknown prefix {prefix:?}")) };
    // digits * 10^(e - len(b)) == v * 10^-decimals
    let mut l = digits;
    let mut rr = BigUint::from(v);
    let shift = e - b.len() as i32 + decimals as i32;
    if shift >= 0 {
        l *= ten(shift as u32)
    } else {
        rr *= ten((-shift) as u32)
    }
    if l != rr {
        return Err(format!("{} {} is not {v} / 10^{decimals}", c.number, c.units));
    }
    Ok(())
}
pub fn c18(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let unit = match r.below(3) {
        0 => r.pick(&["WND", "", "k", "unit", "é", "T"]).to_string(),
        1 => {
            let n = r.below(6);
            (0..n).map(|_| *r.pick(&['W', 'n', 'k', 'm', 'u', 'a', 'T', ' ', '\t', '\n', '0', '9', '.', '-', 'µ', '漢', '{', '}', '\0'])).collect()
        }
        _ => dict::word(r),
    };
    let unit = &unit[..];
    // digit count by case, all decimals
    let len = (i % 39) as u32 + 1;
    let lo: u128 = if len == 1 { 0 } else { 10u128.pow(len - 1) };
    let hi: u128 = if len == 39 { u128::MAX } else { 10u128.pow(len) - 1 };
    let mid = {
        let x = ((r.next() as u128) << 64) | r.next() as u128;
        lo + x % (hi - lo + 1)
    };
    let trail = {
        let k = r.below(len as usize) as u32;
        (mid / 10u128.pow(k)) * 10u128.pow(k)
    };
    for v in [lo, hi, mid, trail.max(lo), lo + (r.below(9) as u128).min(hi - lo)] {
        for decimals in 0..=255u8 {
            macro_rules! t {
                ($($t:ident)*) => {
                    $(if let Ok(x) = $t::try_from(v) {
                        let got = guard(|| Ok::<_, ()>(<$t>::convert_balance_pretty(x, decimals, unit)));
                        let fail = match got {
                            Act::Ok(c) => one_balance(v, c, decimals, unit).err(),
                            Act::Panic(p) => Some(p),
                            Act::Err(()) => None,
                        };
                        if let Some(f) = fail {
                            return bad("printed balance is wrong", vec![format!("{v} {} with {decimals} decimals, unit {unit:?}", stringify!($t)), f]);
                        }
                    })*
                };
            }
            t!(u8 u16 u32 u64 u128);
        }
        cov.kind(&format!("{len:02} digits"));
        cov.nontrivial(v as u64 ^ (v >> 64) as u64, || v.to_string());
    }
    Ok(())
}

// -------------------------------------------------------------------- C20

/// The same but for patterns (call, event, signature) that one of the two was not seen to have.
fn same_but_patterns(a: &ExtendedData, b: &ExtendedData) -> bool {
    use ParsedData as D;
    fn ext(a: &ExtendedData, b: &ExtendedData) -> bool {
        a.info == b.info && go(&a.data, &b.data)
    }
    fn fields(a: &[FieldData], b: &[FieldData]) -> bool {
        a.len() == b.len()
            && a.iter().zip(b).all(|(x, y)| {
                x.field_name == y.field_name && x.type_name == y.type_name && x.field_docs == y.field_docs && ext(&x.data, &y.data)
            })
    }
    /// name of the variant, what it holds
    fn opened(d: &D) -> Option<(String, Option<ParsedData>)> {
        match d {
            D::Call(Call(d)) | D::Event(Event(d)) => Some((
                d.pallet_name.clone(),
                Some(D::Variant(VariantData {
                    variant_name: d.variant_name.clone(),
                    variant_docs: d.variant_docs.clone(),
                    fields: d.fields.clone(),
                })),
            )),
            D::Variant(v) if v.fields.len() == 1 => Some((v.variant_name.clone(), Some(v.fields[0].data.data.clone()))),
            D::Variant(v) => Some((v.variant_name.clone(), None)),
            _ => None,
        }
    }
    fn signature(d: &D) -> Option<&[u8]> {
        match d {
            D::SignatureEd25519(s) => Some(&s.0),
            D::SignatureSr25519(s) => Some(&s.0),
            D::SignatureEcdsa(s) => Some(&s.0),
            _ => None,
        }
    }
    fn bytes_inside(d: &D) -> Option<Vec<u8>> {
        match d {
            D::Composite(f) if f.len() == 1 => bytes_inside(&f[0].data.data),
            D::Sequence(SequenceData { data: Sequence::U8(b), .. }) => Some(b.clone()),
            D::SequenceRaw(s) => s.data.iter().map(|d| if let D::PrimitiveU8 { value, .. } = d { Some(*value) } else { None }).collect(),
            _ => None,
        }
    }
    fn go(a: &D, b: &D) -> bool {
        if a == b {
            return true;
        }
        match (a, b) {
            (D::Variant(x), D::Variant(y)) => x.variant_name == y.variant_name && x.variant_docs == y.variant_docs && fields(&x.fields, &y.fields),
            (D::Call(Call(x)), D::Call(Call(y))) | (D::Event(Event(x)), D::Event(Event(y))) => {
                x.pallet_name == y.pallet_name
                    && x.pallet_info == y.pallet_info
                    && x.variant_name == y.variant_name
                    && x.variant_docs == y.variant_docs
                    && fields(&x.fields, &y.fields)
            }
            (D::Composite(x), D::Composite(y)) => fields(x, y),
            (D::Tuple(x), D::Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| ext(x, y)),
            (D::SequenceRaw(x), D::SequenceRaw(y)) => {
                x.element_info == y.element_info && x.data.len() == y.data.len() && x.data.iter().zip(&y.data).all(|(x, y)| go(x, y))
            }
            (D::Variant(x), s) | (s, D::Variant(x)) if signature(s).is_some() => {
                x.fields.len() == 1 && bytes_inside(&x.fields[0].data.data).as_deref() == signature(s)
            }
            _ => match (opened(a), opened(b)) {
                (Some((n, x)), Some((m, y))) => {
                    n == m
                        && match (x, y) {
                            (Some(x), Some(y)) => go(&x, &y),
                            (x, y) => x.is_none() && y.is_none(),
                        }
                }
                _ => false,
            },
        }
    }
    let n = Norm { roles: false, groups: true, calls: false };
    ext(&n.ext(a), &n.ext(b))
}

/// One way to use the crate on a memory.
type Run<'a> = dyn Fn(&mut Mem, usize) -> Result<Vec<ExtendedData>, String> + 'a;

fn faults(r: &mut Rng, what: &str, lines: &dyn Fn() -> Vec<String>, plain: &Act<Vec<ExtendedData>, String>, page: usize, fresh: &dyn Fn(usize) -> Mem, run: &Run, cov: &mut Cov) -> Res {
    let mut m = fresh(page);
    let got = guard(|| run(&mut m, page));
    let same = match (plain, &got) {
        (Act::Ok(a), Act::Ok(b)) => a == b,
        (Act::Err(a), Act::Err(b)) => a == b,
        (Act::Panic(_), Act::Panic(_)) => true,
        _ => false,
    };
    if !same {
        let mut l = lines();
        l.push(format!("from RAM: {}", short(plain)));
        l.push(format!("from pages of {page} bytes: {}", short(&got)));
        return bad(format!("{what}: result differs when data is in external memory"), l);
    }
    cov.kind(what);
    let reads = m.reads;
    let step = 1 + reads / 40;
    let mut known = None;
    let mut k = r.below(step);
    while k < reads {
        for long in [1usize, usize::MAX] {
            let mut m = fresh(page);
            m.fail_at = Some(k);
            m.fail_for = long;
            let got = guard(|| run(&mut m, page));
            cov.kind(if long == 1 { "single fault" } else { "lasting fault" });
            let l = |w: &str| {
                let mut l = lines();
                l.push(format!("{w}, read {k} of {reads} fails{}", if long == 1 { "" } else { ", and all later" }));
                l.push(format!("without fault: {plain:?}"));
                l.push(format!("with fault:    {got:?}"));
                l
            };
            match (&got, plain) {
                (Act::Err(_), _) => {}
                (Act::Ok(a), Act::Ok(b)) if a == b => {}
                (Act::Ok(a), Act::Ok(b))
                    if a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_but_patterns(x, y)) =>
                {
                    cov.kind("fault changed presentation");
                    known = Some(Bad {
                        what: format!("{what}: a failing read while looking for call, event or signature pattern changes the presentation"),
                        detail: l(what).into_iter().take(12).collect(),
                        known: Some("C20-fault-hides-pattern"),
                    });
                }
                (Act::Panic(p), _) => return bad(format!("{what}: panic on a read fault: {p}"), l(what)),
                _ => return bad(format!("{what}: read fault gives other content"), l(what)),
            }
        }
        k += step;
    }
    match known {
        Some(b) => Err(b),
        None => Ok(()),
    }
}
pub fn c20(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let page = *r.pick(&[1usize, 2, 3, 5, 16, 64, 4096]);
    match i % 4 {
        0 | 1 => {
            let s = scene(r, *r.clone().pick(&[Flavor::Clean, Flavor::All, Flavor::Patterns, Flavor::Seqs]), 1);
            let (want, _, _) = reference(&s.reg, s.id, &s.b, s.pos, Role::None);
            if want == Err(RErr::Fuel) {
                return Ok(());
            }
            let mut p = s.pos;
            let plain = guard(|| {
                decode_as_type_at_position::<&[u8], (), Meta>(&sym(s.id), &&s.b[..], &mut (), &s.reg, &mut p).map(|x| vec![x]).map_err(|e| e.to_string())
            });
            cov.nontrivial(fnv(&s.b) ^ s.id as u64, || short(&plain));
            let end = Cell::new(0);
            let run = |m: &mut Mem, _: usize| {
                let mut p = s.pos;
                let out = decode_as_type_at_position::<PBuf, Mem, Meta>(&sym(s.id), &PBuf { len: s.b.len() }, m, &s.reg, &mut p).map(|x| vec![x]).map_err(|e| e.to_string());
                end.set(p);
                out
            };
            faults(r, "type", &|| input(&s.reg, s.id, &s.b, s.pos), &plain, page, &|page| Mem::with(&s.b, page), &run, cov)
        }
        2 => {
            let s = storage(r, true);
            // key and value are in one memory, one after another is not possible with PBuf at 0; the value is put into the key buffer
            let plain = match &s.entry.ty {
                v14::StorageEntryType::Map { hashers, key, .. } => guard(|| {
                    process_key_mapped::<&[u8], (), Meta>(hashers, key, &&s.key[..], &mut (), 32, &s.reg).map(|k| flat_key(&k)).map_err(|e| e.to_string())
                }),
                v14::StorageEntryType::Plain(_) => return Ok(()),
            };
            cov.nontrivial(fnv(&s.key), || short(&plain));
            let run = |m: &mut Mem, _: usize| match &s.entry.ty {
                v14::StorageEntryType::Map { hashers, key, .. } => {
                    process_key_mapped::<PBuf, Mem, Meta>(hashers, key, &PBuf { len: s.key.len() }, m, 32, &s.reg).map(|k| flat_key(&k)).map_err(|e| e.to_string())
                }
                _ => unreachable!(),
            };
            faults(r, "storage key", &|| storage_lines(&s), &plain, page, &|page| Mem::with(&s.key, page), &run, cov)
        }
        _ => {
            if r.chance(1, 3) {
                let (m, b) = xt_scene(r, true);
                if let Xt::Parse(RErr::Fuel) = xt_oracle(&m, &b) {
                    return Ok(());
                }
                let plain = guard(|| decode_as_unchecked_extrinsic::<&[u8], (), Meta>(&&b[..], &mut (), &m).map(flat_xt).map_err(|e| e.to_string()));
                cov.nontrivial(fnv(&b), || short(&plain));
                let run = |mem: &mut Mem, _: usize| decode_as_unchecked_extrinsic::<PBuf, Mem, Meta>(&PBuf { len: b.len() }, mem, &m).map(flat_xt).map_err(|e| e.to_string());
                return faults(r, "extrinsic", &|| vec![hex::encode(&b)], &plain, page, &|page| Mem::with(&b, page), &run, cov);
            }
            let t = tx(r, true);
            let mut b = enc_compact(t.call.len() as u128);
            b.extend(&t.call);
            b.extend(&t.ext);
            if let (CallWant::Parse(RErr::Fuel), _) = call_oracle(&t.meta, &t.call, 0) {
                return Ok(());
            }
            if let Ex::Parse(RErr::Fuel) = ext_oracle(&t.meta, &t.ext, 0, None) {
                return Ok(());
            }
            let wrapc = |c: Call| ExtendedData { data: ParsedData::Call(c), info: vec![] };
            let plain = guard(|| match parse_transaction::<&[u8], (), Meta>(&&b[..], &mut (), &t.meta, t.genesis) {
                Ok(p) => match p.call_result {
                    Ok(c) => {
                        let mut v = p.extensions;
                        v.push(wrapc(c));
                        Ok(v)
                    }
                    Err(e) => Err(e.to_string()),
                },
                Err(e) => Err(e.to_string()),
            });
            cov.nontrivial(fnv(&b), || short(&plain));
            let run = |m: &mut Mem, _: usize| match parse_transaction::<PBuf, Mem, Meta>(&PBuf { len: b.len() }, m, &t.meta, t.genesis) {
                Ok(p) => match p.call_result {
                    Ok(c) => {
                        let mut v = p.extensions;
                        v.push(wrapc(c));
                        Ok(v)
                    }
                    Err(e) => Err(e.to_string()),
                },
                Err(e) => Err(e.to_string()),
            };
            faults(r, "transaction", &|| vec![hex::encode(&b)], &plain, page, &|page| Mem::with(&b, page), &run, cov)
        }
    }
}
fn flat_part(k: &KeyPart) -> ExtendedData {
    match k {
        KeyPart::Parsed(x) => x.clone(),
        KeyPart::Hash(h) => ExtendedData {
            data: ParsedData::Text { text: format!("{h:?}"), specialty: substrate_parser::special_indicators::SpecialtyStr::None },
            info: vec![],
        },
    }
}
fn flat_key(k: &KeyData) -> Vec<ExtendedData> {
    match k {
        KeyData::Plain => vec![],
        KeyData::SingleHash { content } => vec![flat_part(content)],
        KeyData::TupleHash { content, info } => {
            let mut v: Vec<ExtendedData> = content.iter().map(flat_part).collect();
            v.push(ExtendedData { data: ParsedData::Tuple(vec![]), info: vec![info.clone()] });
            v
        }
    }
}
fn flat_xt(x: UncheckedExtrinsic) -> Vec<ExtendedData> {
    match x {
        UncheckedExtrinsic::Signed { address, signature, extra, call } => {
            vec![address, signature, extra, ExtendedData { data: ParsedData::Call(call), info: vec![] }]
        }
        UncheckedExtrinsic::Unsigned { call } => vec![ExtendedData { data: ParsedData::Call(call), info: vec![] }],
    }
}
