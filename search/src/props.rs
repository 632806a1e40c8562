//! Properties of the general decoder: C01..C11.
use crate::gen::*;
use crate::refdec::*;
use crate::util::*;
use crate::{bad, last_panic, props2, Bad, Cov, Res};
use parity_scale_codec::{Compact, Decode, Encode, HasCompact};
use scale_info::{TypeDef, TypeDefPrimitive as P, TypeDefSequence};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use substrate_parser::additional_types::Era;
use substrate_parser::cards::*;
use substrate_parser::compacts::{find_compact, get_compact};
use substrate_parser::decode_as_type_at_position;
use substrate_parser::error::*;

pub type Case = fn(&mut Rng, u64, &mut Cov) -> Res;
pub fn case_of(p: &str) -> Option<Case> {
    Some(match p {
        "C01" => c01,
        "C02" => c02,
        "C03" => c03,
        "C04" => c04,
        "C05" => c05,
        "C06" => c06,
        "C07" => props2::c07,
        "C08" => c08,
        "C09" => c09,
        "C10" => c10,
        "C11" => c11,
        "C12" => props2::c12,
        "C13" => props2::c13,
        "C14" => props2::c14,
        "C15" => props2::c15,
        "C16" => props2::c16,
        "C17" => props2::c17,
        "C18" => props2::c18,
        "C19" => crate::cards_ref::c19,
        "C20" => props2::c20,
        "trust" => crate::trust::trust,
        _ => return None,
    })
}

/// Outcome of a call into the crate; a panic is kept apart.
pub enum Act<T, E> {
    Ok(T),
    Err(E),
    Panic(String),
}
impl<T: std::fmt::Debug, E: std::fmt::Debug> std::fmt::Debug for Act<T, E> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Act::Ok(t) => write!(f, "Ok({t:?})"),
            Act::Err(e) => write!(f, "Err({e:?})"),
            Act::Panic(p) => write!(f, "PANIC: {p}"),
        }
    }
}
pub fn guard<T, E>(f: impl FnOnce() -> Result<T, E>) -> Act<T, E> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => Act::Ok(t),
        Ok(Err(e)) => Act::Err(e),
        Err(p) => {
            let lp = last_panic();
            let (loc, msg) = lp.clone().unwrap_or_default();
            if loc.contains("search/src") || loc.starts_with("src/") {
                // harness itself
                eprintln!("{loc} {msg}");
                resume_unwind(p)
            }
            Act::Panic(format!("{loc}: {msg}"))
        }
    }
}

pub fn dec(reg: &Reg, id: u32, b: &[u8], pos: usize) -> (Act<ExtendedData, ParserError<()>>, usize) {
    let mut p = pos;
    let a = guard(|| decode_as_type_at_position::<&[u8], (), Meta>(&sym(id), &b, &mut (), reg, &mut p));
    (a, p)
}
pub fn reference(reg: &Reg, id: u32, b: &[u8], pos: usize, role: Role) -> (Result<ExtendedData, RErr>, usize, u64) {
    let d = Dec::new(&reg.0, b);
    let mut p = pos;
    let r = d.decode(id, &mut p, St::role(role));
    (r, p, d.hits.get())
}
pub fn input(reg: &Reg, id: u32, b: &[u8], pos: usize) -> Vec<String> {
    let mut v = vec![format!("type id {id}, start position {pos}, data {}", hex::encode(b))];
    v.push("registry:".into());
    v.extend(show_reg(&reg.0).into_iter().take(60));
    v
}
pub fn short(s: impl std::fmt::Debug) -> String {
    let s = format!("{s:?}");
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1
        }
        format!("{}...", &s[..n])
    } else {
        s
    }
}

pub struct Scene {
    pub reg: Reg,
    pub id: u32,
    pub b: Vec<u8>,
    pub pos: usize,
}
/// Registry, data and start position.
pub fn scene(r: &mut Rng, flavor: Flavor, damage: usize) -> Scene {
    let depth = r.range(0, 5);
    let mut g = Gen::new(r, flavor);
    let id = g.root(depth);
    let mut b = g.data(id);
    g.damage(&mut b, damage);
    let reg = Reg(Rc::new(std::mem::take(&mut g.reg)));
    let mut pos = 0;
    if r.chance(1, 3) {
        pos = r.below(6);
        let mut pre = r.bytes(pos);
        pre.extend_from_slice(&b);
        b = pre;
    }
    if r.chance(1, 3) {
        let n = r.below(90);
        let x = r.bytes(n);
        b.extend(x)
    }
    Scene { reg, id, b, pos }
}
pub fn mismatch<T>(s: &Scene, what: &str, want: impl std::fmt::Debug, got: impl std::fmt::Debug) -> Result<T, Bad> {
    let mut d = input(&s.reg, s.id, &s.b, s.pos);
    d.push(format!("expected: {}", short(want)));
    d.push(format!("got:      {}", short(got)));
    bad(what, d)
}

/// Decoder against the reference, disregarding what `norm` says.
fn against(s: &Scene, norm: Norm, cov: &mut Cov) -> Result<Option<ExtendedData>, Bad> {
    let (want, wp, hits) = reference(&s.reg, s.id, &s.b, s.pos, Role::None);
    if want == Err(RErr::Fuel) {
        cov.kind("skipped as too long");
        return Ok(None);
    }
    let (got, gp) = dec(&s.reg, s.id, &s.b, s.pos);
    match (&want, &got) {
        (Ok(w), Act::Ok(g)) => {
            cov.kind("decoded");
            if norm.ext(w) != norm.ext(g) {
                return mismatch(s, "decoded value differs", w, g);
            }
            if wp != gp {
                return mismatch(s, "position after decoding differs", wp, gp);
            }
            cov.nontrivial(fnv(format!("{w:?}{hits}").as_bytes()), || short(w));
            Ok(Some(w.clone()))
        }
        (Err(e), Act::Err(_)) => {
            cov.kind(match e {
                RErr::Cyclic => "rejected: cyclic types",
                RErr::Compact(..) => "rejected: compact insides",
                RErr::Data => "rejected: data",
                RErr::Registry => "rejected: registry",
                RErr::Fuel => "",
            });
            if *e != RErr::Data {
                cov.nontrivial(fnv(format!("{e:?}{:?}", s.reg.0.get(&s.id)).as_bytes()), || short(e));
            }
            Ok(None)
        }
        _ => mismatch(s, "acceptance differs", want, got),
    }
}

pub fn c01(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let f = match i % 4 {
        0 => Flavor::All,
        1 => Flavor::Seqs,
        _ => Flavor::Clean,
    };
    let s = scene(r, f, if i % 3 == 0 { 4 } else { 0 });
    against(&s, Norm { roles: true, groups: true, calls: true }, cov).map(|_| ())
}
pub fn c06(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let s = scene(r, if i % 3 == 0 { Flavor::Roles } else { Flavor::Seqs }, 1);
    against(&s, Norm { roles: false, groups: true, calls: true }, cov).map(|_| ())
}
pub fn c10(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let s = scene(r, if i % 4 == 0 { Flavor::All } else { Flavor::Roles }, 1);
    // under an extension, or plain
    if i % 2 == 0 {
        if r.chance(1, 4) {
            // something the role of an extension matters for
            let mut g = Gen::new(r, Flavor::Clean);
            let mut id = match g.r.below(4) {
                0 | 1 => g.known_ty(Known::H256, true),
                2 => g.known_ty(Known::Era, true),
                _ => {
                    let p = g.r.pick(&[P::U8, P::U16, P::U32, P::U64, P::U128]).clone();
                    g.prim(p)
                }
            };
            let n = g.r.below(3);
            id = props2::wrap(&mut g, id, n);
            let b = g.data(id);
            let reg = Reg(Rc::new(std::mem::take(&mut g.reg)));
            return props2::role_under_extension(r, &Scene { reg, id, b, pos: 0 }, cov);
        }
        return props2::role_under_extension(r, &s, cov);
    }
    against(&s, Norm { roles: false, groups: true, calls: true }, cov).map(|_| ())
}

pub fn c02(r: &mut Rng, _i: u64, cov: &mut Cov) -> Res {
    let prims = [
        P::Bool, P::Char, P::Str, P::U8, P::U16, P::U32, P::U64, P::U128, P::U256, P::I8, P::I16, P::I32, P::I64, P::I128, P::I256,
    ];
    const K: [Known; 15] = [
        Known::AccountId32, Known::H160, Known::H256, Known::H512, Known::Perbill, Known::Percent, Known::Permill,
        Known::Perquintill, Known::PerU16, Known::PubEd, Known::PubSr, Known::PubEc, Known::SigEd, Known::SigSr, Known::SigEc,
    ];
    let mut g = Gen::new(r, Flavor::Clean);
    let n = g.r.below(prims.len() + K.len() + 6);
    let id = if n < prims.len() {
        g.prim(prims[n].clone())
    } else if n < prims.len() + K.len() {
        g.known_ty(K[n - prims.len()], true)
    } else {
        let p = [P::Bool, P::Char, P::Str, P::Str, P::Char, P::I256][n - prims.len() - K.len()].clone();
        g.prim(p)
    };
    let mut b = match g.r.below(4) {
        0 => {
            let n = g.r.below(70);
            g.r.bytes(n)
        }
        _ => g.data(id),
    };
    g.damage(&mut b, 3);
    let reg = Reg(Rc::new(std::mem::take(&mut g.reg)));
    let mut pos = 0;
    if r.chance(1, 3) {
        pos = r.below(40);
        let mut pre = r.bytes(pos);
        pre.extend_from_slice(&b);
        b = pre;
    }
    if r.chance(1, 2) {
        let n = r.below(40);
        let x = r.bytes(n);
        b.extend(x)
    }
    if r.chance(1, 12) {
        pos = b.len() + r.below(3)
    }
    let s = Scene { reg, id, b, pos };
    let (_, gp) = dec(&s.reg, s.id, &s.b, s.pos);
    match against(&s, Norm::NONE, cov)? {
        Some(_) => Ok(()),
        None => {
            cov.nontrivial(fnv(&s.b) ^ s.id as u64, || format!("rejected {}", hex::encode(&s.b)));
            if gp != s.pos {
                return mismatch(&s, "position moved although decoding failed", s.pos, gp);
            }
            Ok(())
        }
    }
}

fn compact_bytes(r: &mut Rng) -> Vec<u8> {
    let mut b = match r.below(6) {
        0..=2 => enc_compact(r.num()),
        3 => {
            // non canonical
            let v = r.num();
            match r.below(3) {
                0 => (((v as u16) << 2) | 1).to_le_bytes().to_vec(),
                1 => (((v as u32) << 2) | 2).to_le_bytes().to_vec(),
                _ => {
                    let n = r.range(4, 20);
                    let mut o = vec![(((n - 4) as u8) << 2) | 3];
                    let mut raw = v.to_le_bytes().to_vec();
                    raw.resize(n.max(16), 0);
                    raw.truncate(n);
                    o.extend(raw);
                    o
                }
            }
        }
        4 => {
            let n = r.below(4);
            let e = [1u128 << 6, 1 << 14, 1 << 30, 1 << 32];
            enc_compact(e[n].wrapping_sub(r.below(2) as u128))
        }
        _ => {
            let n = r.below(20);
            r.bytes(n)
        }
    };
    if r.chance(1, 4) {
        let n = r.below(b.len() + 1);
        b.truncate(n)
    }
    b
}
fn one_compact<T>(b: &[u8], pos: usize, max: u128, cov: &mut Cov) -> Res
where
    T: HasCompact + Into<u128>,
    Compact<T>: Decode,
{
    let want = b.get(pos..).and_then(|x| compact(x, max)).map(|(v, n)| (v, pos + n));
    let found = guard(|| find_compact::<T, &[u8], ()>(&b, &mut (), pos).map(|c| (c.compact.into(), c.start_next_unit)));
    let mut p = pos;
    let got = guard(|| get_compact::<T, &[u8], ()>(&b, &mut (), &mut p).map(|c| c.into()));
    let d = |w: &str, g: &dyn std::fmt::Debug| {
        bad(w.to_string(), vec![
            format!("compact of {} at {pos} in {}", std::any::type_name::<T>(), hex::encode(b)),
            format!("expected: {want:?} (value, next position)"),
            format!("got:      {g:?}"),
        ])
    };
    match (want, &found) {
        (Some(w), Act::Ok(g)) if w == *g => {}
        (None, Act::Err(_)) => {}
        _ => return d("find_compact differs from the canonical compact reading", &found),
    }
    match (want, &got) {
        (Some((w, q)), Act::Ok(g)) if w == *g && q == p => {}
        (None, Act::Err(_)) if p == pos => {}
        _ => return d("get_compact differs from the canonical compact reading", &(&got, p)),
    }
    cov.kind(if want.is_some() { "found" } else { "none" });
    cov.nontrivial(fnv(b) ^ (pos as u64) ^ (max as u64), || format!("{} at {pos}: {want:?}", hex::encode(b)));
    Ok(())
}
pub fn c03(r: &mut Rng, _i: u64, cov: &mut Cov) -> Res {
    let mut pos = if r.chance(1, 2) { r.below(25) } else { 0 };
    let mut b = r.bytes(pos);
    b.extend(compact_bytes(r));
    if r.chance(1, 2) {
        let n = r.below(20);
        let x = r.bytes(n);
        b.extend(x)
    }
    if r.chance(1, 10) {
        pos = b.len() + r.below(3);
    }
    if r.chance(1, 200) {
        pos = usize::MAX - r.below(3)
    }
    one_compact::<u8>(&b, pos, u8::MAX as u128, cov)?;
    one_compact::<u16>(&b, pos, u16::MAX as u128, cov)?;
    one_compact::<u32>(&b, pos, u32::MAX as u128, cov)?;
    one_compact::<u64>(&b, pos, u64::MAX as u128, cov)?;
    one_compact::<u128>(&b, pos, u128::MAX, cov)?;
    // parts-per and numbers through the decoder
    let mut g = Gen::new(r, Flavor::Clean);
    let inner = g.compactable(1);
    let id = g.add(plain(scale_info::TypeDefCompact::new(sym(inner))));
    let reg = Reg(Rc::new(std::mem::take(&mut g.reg)));
    against(&Scene { reg, id, b, pos }, Norm::NONE, cov).map(|_| ())
}

pub fn c04(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let w = (i % 4) as usize;
    let msb = (i / 4) % 2 == 1;
    let width = [1usize, 2, 4, 8][w];
    let mut g = Gen::new(r, Flavor::Clean);
    let id = g.bitseq(w, msb);
    let mut b = g.data(id);
    g.damage(&mut b, 2);
    let reg = Reg(Rc::new(std::mem::take(&mut g.reg)));
    let pos = if r.chance(1, 2) { r.below(20) } else { 0 };
    let mut d = r.bytes(pos);
    d.extend(b);
    if r.chance(1, 2) {
        let n = r.below(12);
        let x = r.bytes(n);
        d.extend(x)
    }
    let s = Scene { reg, id, b: d, pos };
    against(&s, Norm::NONE, cov)?;
    #[cfg(substrate_parser_verif)]
    if width == 8 {
        use substrate_parser::decoding_sci::verif_hooks::{patched_lsb0, patched_msb0};
        let dd = Dec::new(&s.reg.0, &s.b);
        let mut wp = pos;
        let want = dd.bits(&mut wp, 8, msb);
        let mut gp = pos;
        let data: &[u8] = &s.b;
        let got = if msb {
            guard(|| patched_msb0::<&[u8], ()>(&data, &mut (), &mut gp).map(|v| v.iter().by_vals().collect::<Vec<bool>>()))
        } else {
            guard(|| patched_lsb0::<&[u8], ()>(&data, &mut (), &mut gp).map(|v| v.iter().by_vals().collect::<Vec<bool>>()))
        };
        cov.kind("32bit routine");
        match (&want, &got) {
            (Ok(a), Act::Ok(b)) if a == b && wp == gp => {}
            (Err(_), Act::Err(_)) => {}
            _ => return mismatch(&s, "32bit routine differs", (want, wp), (got, gp)),
        }
    }
    let _ = width;
    Ok(())
}

fn one_era(b: &[u8]) -> Res {
    let want = era(b);
    let mut x = b;
    let got = guard(|| Era::decode(&mut x).map(|e| (e, b.len() - x.len())));
    let d = |w: &str, g: &dyn std::fmt::Debug| bad(w.to_string(), vec![format!("era bytes {}", hex::encode(b)), format!("expected: {want:?}"), format!("got:      {g:?}")]);
    match (want, &got) {
        (Some(w), Act::Ok(g)) if w == *g => {
            let enc = guard(|| Ok::<_, ()>(w.0.encode()));
            match &enc {
                Act::Ok(e) if e[..] == b[..w.1] => Ok(()),
                _ => d("encoding a decoded era does not give the same bytes", &enc),
            }
        }
        (None, Act::Err(_)) => Ok(()),
        _ => d("era decoding differs from the rule of the chain", &got),
    }
}
pub fn c05(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    // all encodings, then eras inside data
    if i < 256 {
        one_era(&[i as u8])?;
        one_era(&[])?;
        for second in 0..=255u8 {
            let b = [i as u8, second];
            cov.kind(if era(&b).is_some() { "valid" } else { "invalid" });
            cov.nontrivial(i * 256 + second as u64, || hex::encode(b));
            one_era(&b)?;
        }
        return Ok(());
    }
    let mut g = Gen::new(r, Flavor::Clean);
    let id = g.known_ty(Known::Era, true);
    let reg = Reg(Rc::new(std::mem::take(&mut g.reg)));
    let pos = if r.chance(1, 2) { r.below(20) } else { 0 };
    let n = pos + r.below(5);
    let mut b = r.bytes(n);
    if r.chance(1, 3) && b.len() > pos {
        b[pos] = 0
    }
    let s = Scene { reg, id, b, pos };
    against(&s, Norm::NONE, cov).map(|_| ())
}

pub fn c08(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let mut s = scene(r, if i % 4 == 3 { Flavor::All } else { Flavor::Cyclic }, if i % 2 == 0 { 5 } else { 0 });
    if r.chance(1, 15) {
        s.pos = s.b.len() + r.below(3)
    }
    if r.chance(1, 400) {
        s.pos = usize::MAX - r.below(40)
    }
    let (want, _, _) = reference(&s.reg, s.id, &s.b, s.pos, Role::None);
    if want == Err(RErr::Fuel) {
        cov.kind("skipped as too long");
        return Ok(());
    }
    let (got, gp) = dec(&s.reg, s.id, &s.b, s.pos);
    let cyc = matches!(got, Act::Err(ParserError::Registry(RegistryError::Internal(RegistryInternalError::CyclicMetadata { .. }))));
    match &got {
        Act::Panic(_) => return mismatch(&s, "decoding panicked", want, got),
        Act::Ok(_) => {
            if gp < s.pos || gp > s.b.len().max(s.pos) {
                return mismatch(&s, "position out of range after decoding", s.pos..=s.b.len(), gp);
            }
            if matches!(want, Err(RErr::Cyclic)) {
                return mismatch(&s, "types that come back to themselves were not reported as cyclic", want, got);
            }
        }
        Act::Err(_) => {
            if cyc && want != Err(RErr::Cyclic) {
                return mismatch(&s, "reported as cyclic, but the types do not come back to themselves", want, got);
            }
            if !cyc && want == Err(RErr::Cyclic) {
                return mismatch(&s, "types that come back to themselves were not reported as cyclic", want, got);
            }
        }
    }
    cov.kind(match &want {
        Ok(_) => "decoded",
        Err(RErr::Cyclic) => "cyclic",
        Err(_) => "rejected",
    });
    cov.nontrivial(fnv(format!("{want:?}{:?}", s.reg.0.len()).as_bytes()), || short(&want));
    Ok(())
}

pub fn c09(r: &mut Rng, _i: u64, cov: &mut Cov) -> Res {
    let s = scene(r, Flavor::Compact, 1);
    let (want, _, _) = reference(&s.reg, s.id, &s.b, s.pos, Role::None);
    if want == Err(RErr::Fuel) {
        return Ok(());
    }
    if let Err(RErr::Compact(id, exact)) = want {
        let (got, _) = dec(&s.reg, s.id, &s.b, s.pos);
        cov.kind("rejected: compact insides");
        cov.nontrivial(fnv(format!("{id}{:?}", s.reg.0.get(&id)).as_bytes()), || format!("compact {id} rejected"));
        return match &got {
            Act::Err(ParserError::Registry(RegistryError::Internal(RegistryInternalError::UnexpectedCompactInsides { id: x }))) => {
                if *x == id {
                    Ok(())
                } else {
                    mismatch(&s, "wrong compact type is named", id, x)
                }
            }
            Act::Err(_) if !(exact && s.b.len() >= s.pos + 70) => Ok(()),
            _ => mismatch(&s, "something that has no compact encoding was not rejected as such", want, got),
        };
    }
    against(&s, Norm { roles: true, groups: true, calls: true }, cov).map(|_| ())
}

pub fn c11(r: &mut Rng, i: u64, cov: &mut Cov) -> Res {
    let mut s = scene(r, if i % 5 == 0 { Flavor::Roles } else { Flavor::Patterns }, 1);
    if i % 4 == 0 {
        // near misses of the well-known paths
        s = near_miss(r);
    }
    let (want, _, _) = reference(&s.reg, s.id, &s.b, s.pos, Role::None);
    if want == Err(RErr::Fuel) {
        return Ok(());
    }
    let (got, _) = dec(&s.reg, s.id, &s.b, s.pos);
    match (&want, &got) {
        (Ok(w), Act::Ok(g)) => {
            let (a, b) = (skeleton(&w.data), skeleton(&g.data));
            if a != b {
                return mismatch(&s, "presented as another kind", a, b);
            }
            cov.kind("decoded");
            cov.nontrivial(fnv(a.as_bytes()), || a.chars().take(200).collect());
            Ok(())
        }
        (Err(_), Act::Err(_)) => {
            cov.kind("rejected");
            Ok(())
        }
        _ => mismatch(&s, "acceptance differs", want, got),
    }
}
fn near_miss(r: &mut Rng) -> Scene {
    let idents = [
        "AccountId32", "Era", "H160", "AccountId20", "H256", "H512", "MultiSignature", "Call", "RuntimeCall", "Event", "RuntimeEvent",
        "Perbill", "Percent", "Permill", "Perquintill", "PerU16", "Public", "Signature", "UncheckedExtrinsic", "AccountId3", "Eras",
        "accountid32", "H25", "Perbil", "publics", "",
    ];
    let ns: [&[&str]; 14] = [
        &[], &["sp_core"], &["sp_core", "ed25519"], &["sp_core", "sr25519"], &["sp_core", "ecdsa"], &["ed25519"], &["sp_core", "ecdsa", "x"],
        &["x", "sp_core", "ed25519"], &["sp_runtime", "generic", "unchecked_extrinsic"], &["sp_core", "crypto"], &["sp_core", "ed448"],
        &["sr25519", "sp_core"], &["sp_core", ""], &["pallet", "pallet"],
    ];
    let mut seg: Vec<&str> = r.pick(&ns).to_vec();
    seg.push(*r.pick(&idents));
    if r.chance(1, 8) {
        seg.push("inner")
    }
    let mut g = Gen::new(r, Flavor::Clean);
    let u = g.prim(P::U8);
    let def: TypeDef<_> = match g.r.below(3) {
        0 => TypeDefSequence::new(sym(u)).into(),
        1 => P::U64.into(),
        _ => scale_info::TypeDefArray::new(3, sym(u)).into(),
    };
    let mut id = g.add(ty(path(&seg), def, vec![]));
    match g.r.below(4) {
        0 => id = g.add(plain(TypeDefSequence::new(sym(id)))),
        1 => id = g.add(plain(scale_info::TypeDefTuple::new_portable(vec![sym(id), sym(u)]))),
        _ => {}
    }
    let reg = Reg(Rc::new(std::mem::take(&mut g.reg)));
    let n = g.r.range(0, 90);
    let mut b = r.bytes(n);
    if !b.is_empty() {
        b[0] = 4
    }
    Scene { reg, id, b, pos: 0 }
}
