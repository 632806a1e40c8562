== module storage_data
== prelude
use core::any::TypeId;
use external_memory_tools::{AddressableBuffer, ExternalMemory};
use frame_metadata::v14::{StorageEntryMetadata, StorageEntryType, StorageHasher};
use scale_info::{form::PortableForm, interner::UntrackedSymbol, TypeDef, Type};
use sp_crypto_hashing::{blake2_128, twox_64};
use crate::cards::*;
use crate::decoding_sci::*;
use crate::error::*;
use crate::lib::*;
use crate::propagated::*;
use crate::special_indicators::*;
use crate::traits::*;
//VERUS
pub open spec fn kind_storage<E: ExternalMemory>(e: StorageError<E>) -> K {
    match e { StorageError::ParsingKey(x) => kind(x), StorageError::ParsingValue(x) => kind(x), _ => K::Plain }
}
pub open spec fn stored<E: ExternalMemory, T>(r: Result<T, StorageError<E>>, p1: usize, want: Got<T>) -> bool {
    match r { Ok(v) => want == Ok::<(T, int), K>((v, p1 as int)), Err(e) => want == Err::<(T, int), K>(kind_storage(e)) }
}
/// a hash that nothing is concatenated to
pub open spec fn bare<const N: usize>(b: Seq<u8>, pos: int) -> Got<[u8; N]> {
    if 0 <= pos && pos + N <= b.len() { Ok((array_of::<N>(b.subrange(pos, pos + N)), pos + N)) } else { Err(K::Plain) }
}
pub open spec fn undecoded<const N: usize>(b: Seq<u8>, pos: int, id: u32, f: spec_fn([u8; N]) -> Hash) -> Got<KeyPart> {
    match bare::<N>(b, pos) { Ok((h, p)) => Ok((KeyPart::Hash(HashData { hash: f(h), type_id: id }), p)), Err(k) => Err(k) }
}
pub open spec fn plainly(reg: Registry, b: Seq<u8>, pos: int, id: u32) -> Got<ExtendedData> {
    decoded(reg, b, pos, id, SpecialtySet { compact_at: None, hint: Hint::None }, Seq::empty(), Seq::empty())
}
/// a hash of n bytes and the data it is the hash of
pub open spec fn hashed(reg: Registry, b: Seq<u8>, pos: int, id: u32, n: int, h: spec_fn(Seq<u8>) -> Seq<u8>) -> Got<KeyPart> {
    if 0 <= pos && pos + n <= b.len() {
        match plainly(reg, b, pos + n, id) {
            Ok((x, p)) => if h(b.subrange(pos + n, p)) == b.subrange(pos, pos + n) { Ok((KeyPart::Parsed(x), p)) } else { Err(K::Plain) },
            Err(k) => Err(k),
        }
    } else { Err(K::Plain) }
}
pub open spec fn part_at(reg: Registry, b: Seq<u8>, pos: int, id: u32, h: StorageHasher) -> Got<KeyPart> {
    match h {
        StorageHasher::Blake2_128 => undecoded::<16>(b, pos, id, |x: [u8; 16]| Hash::Blake2_128(x)),
        StorageHasher::Blake2_256 => undecoded::<32>(b, pos, id, |x: [u8; 32]| Hash::Blake2_256(x)),
        StorageHasher::Twox128 => undecoded::<16>(b, pos, id, |x: [u8; 16]| Hash::Twox128(x)),
        StorageHasher::Twox256 => undecoded::<32>(b, pos, id, |x: [u8; 32]| Hash::Twox256(x)),
        StorageHasher::Blake2_128Concat => hashed(reg, b, pos, id, 16, |s: Seq<u8>| blake2_128_of(s)),
        StorageHasher::Twox64Concat => hashed(reg, b, pos, id, 8, |s: Seq<u8>| twox_64_of(s)),
        StorageHasher::Identity => match plainly(reg, b, pos, id) { Ok((x, p)) => Ok((KeyPart::Parsed(x), p)), Err(k) => Err(k) },
    }
}
/// the first n parts, in hasher order
pub open spec fn parts_at(reg: Registry, b: Seq<u8>, pos: int, t: Seq<UntrackedSymbol<TypeId>>, h: Seq<StorageHasher>, n: nat) -> Got<Seq<KeyPart>>
    decreases n
{
    if n == 0 { Ok((Seq::empty(), pos)) } else {
        match parts_at(reg, b, pos, t, h, (n - 1) as nat) {
            Ok((v, p)) => match part_at(reg, b, p, sym(t[n - 1]), h[n - 1]) { Ok((x, q)) => Ok((v.push(x), q)), Err(k) => Err(k) },
            Err(k) => Err(k),
        }
    }
}
pub proof fn lemma_parts_err(reg: Registry, b: Seq<u8>, pos: int, t: Seq<UntrackedSymbol<TypeId>>, h: Seq<StorageHasher>, n: nat, i: nat)
    requires i <= n, parts_at(reg, b, pos, t, h, i) is Err
    ensures parts_at(reg, b, pos, t, h, n) == parts_at(reg, b, pos, t, h, i)
    decreases n
{ if i < n { lemma_parts_err(reg, b, pos, t, h, (n - 1) as nat, i); } }
/// all of a key from a position on
pub open spec fn key_at(reg: Registry, b: Seq<u8>, pos: int, id: u32, h: Seq<StorageHasher>) -> Result<KeyData, K> {
    if h.len() == 1 {
        match part_at(reg, b, pos, id, h[0]) { Ok((x, p)) => if p == b.len() { Ok(KeyData::SingleHash { content: x }) } else { Err(K::Plain) }, Err(k) => Err(k) }
    } else if !reg.contains_key(id) { Err(K::Plain) } else {
        match reg[id].type_def {
            TypeDef::Tuple(t) => if t.fields@.len() != h.len() { Err(K::Plain) } else {
                match parts_at(reg, b, pos, t.fields@, h, h.len()) {
                    Ok((v, p)) => if p == b.len() { Ok(KeyData::TupleHash { content: vec_of(v), info: info_of(reg[id]) }) } else { Err(K::Plain) },
                    Err(k) => Err(k),
                }
            },
            _ => Err(K::Plain),
        }
    }
}
pub open spec fn storage_at(reg: Registry, key: Seq<u8>, value: Seq<u8>, m: StorageEntryMetadata<PortableForm>) -> Result<Storage, K> {
    if key.len() < 32 { Err(K::Plain) } else {
        match m.ty {
            StorageEntryType::Plain(v) => if key.len() != 32 { Err(K::Plain) } else {
                match blob(reg, value, sym(v)) { Ok(x) => Ok(Storage { key: KeyData::Plain, value: x, docs: docs_of(m.docs@) }), Err(k) => Err(k) }
            },
            StorageEntryType::Map { hashers, key: k, value: v } => match key_at(reg, key, 32, sym(k), hashers@) {
                Ok(d) => match blob(reg, value, sym(v)) { Ok(x) => Ok(Storage { key: d, value: x, docs: docs_of(m.docs@) }), Err(k) => Err(k) },
                Err(k) => Err(k),
            },
        }
    }
}
== fn cut_blake2_128
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> kept(*old(position), *final(position), key_input.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> stored(r, *final(position), undecoded::<16>(key_input.bytes(), *old(position) as int, sym(*key_ty), |x: [u8; 16]| Hash::Blake2_128(x)))
-- start
    proof { broadcast use axiom_array_bc; }
== fn cut_blake2_256
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> kept(*old(position), *final(position), key_input.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> stored(r, *final(position), undecoded::<32>(key_input.bytes(), *old(position) as int, sym(*key_ty), |x: [u8; 32]| Hash::Blake2_256(x)))
-- start
    proof { broadcast use axiom_array_bc; }
== fn cut_twox_128
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> kept(*old(position), *final(position), key_input.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> stored(r, *final(position), undecoded::<16>(key_input.bytes(), *old(position) as int, sym(*key_ty), |x: [u8; 16]| Hash::Twox128(x)))
-- start
    proof { broadcast use axiom_array_bc; }
== fn cut_twox_256
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> kept(*old(position), *final(position), key_input.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> stored(r, *final(position), undecoded::<32>(key_input.bytes(), *old(position) as int, sym(*key_ty), |x: [u8; 32]| Hash::Twox256(x)))
-- start
    proof { broadcast use axiom_array_bc; }
== fn check_blake2_128
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> kept(*old(position), *final(position), key_input.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> stored(r, *final(position), hashed(registry.reg(), key_input.bytes(), *old(position) as int, sym(*ty), 16, |s: Seq<u8>| blake2_128_of(s)))
-- start
    proof { broadcast use axiom_array_bc; axiom_equality(); }
== fn check_twox_64
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> kept(*old(position), *final(position), key_input.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> stored(r, *final(position), hashed(registry.reg(), key_input.bytes(), *old(position) as int, sym(*ty), 8, |s: Seq<u8>| twox_64_of(s)))
-- start
    proof { broadcast use axiom_array_bc; axiom_equality(); }
== fn process_key_mapped
-- attr #[verifier::loop_isolation(false)]
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> match r {
                Ok(d) => key_at(registry.reg(), key_input.bytes(), position as int, sym(*key_ty), hashers@) == Ok::<KeyData, K>(d),
                Err(e) => key_at(registry.reg(), key_input.bytes(), position as int, sym(*key_ty), hashers@) == Err::<KeyData, K>(kind_storage(e)),
            }
-- start
    let ghost __p = position;
    let ghost __f = ext_memory.faults();
    proof { broadcast use axiom_vec_bc; }
-- loop 1
    invariant
        __e1 == tuple_elements@.len(), __i1 <= __e1, ext_memory.faults() >= __f, clean(__f, ext_memory.faults()),
        ext_memory.faults() == __f ==> parts_at(registry.reg(), key_input.bytes(), __p as int, tuple_elements@, hashers@, __i1 as nat) == Ok::<(Seq<KeyPart>, int), K>((content@, position as int)),
    decreases __e1 - __i1
-- loop 1 start
    proof {
        let w = parts_at(registry.reg(), key_input.bytes(), __p as int, tuple_elements@, hashers@, (__i1 + 1) as nat);
        if w is Err { lemma_parts_err(registry.reg(), key_input.bytes(), __p as int, tuple_elements@, hashers@, hashers@.len(), (__i1 + 1) as nat); }
    }
== fn decode_as_storage_entry
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> match r {
                Ok(d) => storage_at(registry.reg(), key_input.bytes(), value_input.bytes(), *entry_metadata) == Ok::<Storage, K>(d),
                Err(e) => storage_at(registry.reg(), key_input.bytes(), value_input.bytes(), *entry_metadata) == Err::<Storage, K>(kind_storage(e)),
            }
