== module decoding_sci_ext
== prelude
use external_memory_tools::{AddressableBuffer, ExternalMemory};
use primitive_types::H256;
use crate::additional_types::Era;
use crate::cards::*;
use crate::decoding_sci::*;
use crate::error::*;
use crate::lib::*;
use crate::propagated::*;
use crate::special_indicators::*;
use crate::special_types::UnsignedInteger;
use crate::traits::*;
//VERUS
/// what an extension contributes to the check
pub enum Item { Era(Era), Genesis(H256), Block(H256), Version(Seq<char>), Other }
pub open spec fn item_of(d: ParsedData) -> Item {
    match d {
        ParsedData::Era(e) => Item::Era(e),
        ParsedData::GenesisHash(h) => Item::Genesis(h),
        ParsedData::BlockHash(h) => Item::Block(h),
        ParsedData::PrimitiveU8 { value, specialty: SpecialtyUnsignedInteger::SpecVersion } => Item::Version(dec(value as nat)),
        ParsedData::PrimitiveU16 { value, specialty: SpecialtyUnsignedInteger::SpecVersion } => Item::Version(dec(value as nat)),
        ParsedData::PrimitiveU32 { value, specialty: SpecialtyUnsignedInteger::SpecVersion } => Item::Version(dec(value as nat)),
        ParsedData::PrimitiveU64 { value, specialty: SpecialtyUnsignedInteger::SpecVersion } => Item::Version(dec(value as nat)),
        ParsedData::PrimitiveU128 { value, specialty: SpecialtyUnsignedInteger::SpecVersion } => Item::Version(dec(value as nat)),
        _ => Item::Other,
    }
}
/// an extension, or the only member of a struct
pub open spec fn item(e: ExtendedData) -> Item {
    match e.data { ParsedData::Composite(f) => if f@.len() == 1 { item_of(f@[0].data.data) } else { Item::Other }, d => item_of(d) }
}
pub open spec fn items(s: Seq<ExtendedData>) -> Seq<Item> { s.map_values(|e: ExtendedData| item(e)) }
/// all eras, hashes and versions in order
pub open spec fn eras(s: Seq<Item>) -> Seq<Era>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { match s.last() { Item::Era(x) => eras(s.drop_last()).push(x), _ => eras(s.drop_last()) } } }
pub open spec fn geneses(s: Seq<Item>) -> Seq<H256>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { match s.last() { Item::Genesis(x) => geneses(s.drop_last()).push(x), _ => geneses(s.drop_last()) } } }
pub open spec fn blocks(s: Seq<Item>) -> Seq<H256>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { match s.last() { Item::Block(x) => blocks(s.drop_last()).push(x), _ => blocks(s.drop_last()) } } }
pub open spec fn versions(s: Seq<Item>) -> Seq<Seq<char>>
    decreases s.len()
{ if s.len() == 0 { seq![] } else { match s.last() { Item::Version(x) => versions(s.drop_last()).push(x), _ => versions(s.drop_last()) } } }
/// the extensions are those of this chain and runtime
pub open spec fn accepted(s: Seq<Item>, version: Seq<char>, genesis: Option<H256>) -> bool {
    &&& versions(s).len() == 1 && versions(s)[0] == version
    &&& geneses(s).len() == 1 && (genesis matches Some(g) ==> geneses(s)[0] == g)
    &&& eras(s).len() <= 1 && blocks(s).len() <= 1
    &&& eras(s).len() == 1 && eras(s)[0] is Immortal && blocks(s).len() == 1 ==> blocks(s)[0] == geneses(s)[0]
}
pub proof fn lemma_grow(s: Seq<Item>, i: int)
    requires 0 <= i <= s.len()
    ensures
        eras(s.take(i)).len() <= eras(s).len(), geneses(s.take(i)).len() <= geneses(s).len(),
        blocks(s.take(i)).len() <= blocks(s).len(), versions(s.take(i)).len() <= versions(s).len()
    decreases s.len()
{
    if i < s.len() { lemma_grow(s.drop_last(), i); assert(s.drop_last().take(i) =~= s.take(i)); } else { assert(s.take(i) =~= s); }
}
pub open spec fn one<T>(o: Option<T>) -> Seq<T> { match o { Some(x) => seq![x], None => seq![] } }
pub open spec fn text(o: Option<String>) -> Option<Seq<char>> { match o { Some(x) => Some(x@), None => None } }
impl CollectedExt {
    /// exactly these were added
    pub open spec fn holds(self, s: Seq<Item>) -> bool {
        one(self.era) == eras(s) && one(self.genesis_hash) == geneses(s) && one(self.block_hash) == blocks(s) && one(text(self.spec_version_printed)) == versions(s)
    }
}
pub open spec fn crowded(s: Seq<Item>) -> bool { eras(s).len() > 1 || geneses(s).len() > 1 || blocks(s).len() > 1 || versions(s).len() > 1 }
// ---- decoding
pub open spec fn role_from(id: String) -> SpecialtySet { SpecialtySet { compact_at: None, hint: hint_of_extension(id@) } }
/// the first n types of the extensions, one right after the other
pub open spec fn run_of(reg: Registry, b: Seq<u8>, pos: int, l: Seq<SignedExtensionMetadata>, n: nat, included: bool) -> Got<Seq<ExtendedData>>
    decreases n
{
    if n == 0 { Ok((Seq::empty(), pos)) } else {
        match run_of(reg, b, pos, l, (n - 1) as nat, included) {
            Ok((v, p)) => match decoded(reg, b, p, sym(if included { l[n - 1].ty } else { l[n - 1].additional_signed }), role_from(l[n - 1].identifier), Seq::empty(), Seq::empty()) {
                Ok((x, q)) => Ok((v.push(x), q)),
                Err(k) => Err(k),
            },
            Err(k) => Err(k),
        }
    }
}
/// all included types, then all additionally signed ones
pub open spec fn run_all(reg: Registry, b: Seq<u8>, pos: int, l: Seq<SignedExtensionMetadata>) -> Got<Seq<ExtendedData>> {
    match run_of(reg, b, pos, l, l.len(), true) {
        Ok((v, p)) => match run_of(reg, b, p, l, l.len(), false) { Ok((w, q)) => Ok((v + w, q)), Err(k) => Err(k) },
        Err(k) => Err(k),
    }
}
pub proof fn lemma_run_err(reg: Registry, b: Seq<u8>, pos: int, l: Seq<SignedExtensionMetadata>, n: nat, included: bool, i: nat)
    requires i <= n, run_of(reg, b, pos, l, i, included) is Err
    ensures run_of(reg, b, pos, l, n, included) == run_of(reg, b, pos, l, i, included)
    decreases n
{ if i < n { lemma_run_err(reg, b, pos, l, (n - 1) as nat, included, i); } }
/// all of the extensions
pub open spec fn extensions_at<E: ExternalMemory, M: AsMetadata<E>>(m: M, b: Seq<u8>, pos: int, genesis: Option<H256>) -> Result<Seq<ExtendedData>, K> {
    match m.extension_list() {
        Some(l) => match run_all(m.known_types(), b, pos, l) {
            Ok((v, p)) => if p != b.len() { Err(K::Unused(p)) } else {
                match m.name_version() {
                    Some(n) => if accepted(items(v), n.printed_spec_version@, genesis) { Ok(v) } else { Err(K::Plain) },
                    None => Err(K::Plain),
                }
            },
            Err(k) => Err(k),
        },
        None => Err(K::Plain),
    }
}
== fn CollectedExt::new
-- spec
        ensures r.holds(Seq::empty())
== fn CollectedExt::update
-- spec
        ensures
            r is Ok ==> forall|s: Seq<Item>| #[trigger] old(self).holds(s) ==> final(self).holds(s.push(item_of(*parsed_data))),
            r matches Err(e) ==> kind_signable(e) is Plain && forall|s: Seq<Item>| #[trigger] old(self).holds(s) ==> crowded(s.push(item_of(*parsed_data)))
-- start
    proof {
        assert forall|s: Seq<Item>, x: Item| #[trigger] s.push(x).drop_last() == s by { assert(s.push(x).drop_last() =~= s); }
    }
== fn CollectedExt::add_era
-- spec
        ensures
            r is Ok ==> old(self).era is None && *final(self) == (CollectedExt { era: Some(era), ..*old(self) }),
            r matches Err(e) ==> kind_signable(e) is Plain && old(self).era is Some
== fn CollectedExt::add_genesis_hash
-- spec
        ensures
            r is Ok ==> old(self).genesis_hash is None && *final(self) == (CollectedExt { genesis_hash: Some(genesis_hash), ..*old(self) }),
            r matches Err(e) ==> kind_signable(e) is Plain && old(self).genesis_hash is Some
== fn CollectedExt::add_block_hash
-- spec
        ensures
            r is Ok ==> old(self).block_hash is None && *final(self) == (CollectedExt { block_hash: Some(block_hash), ..*old(self) }),
            r matches Err(e) ==> kind_signable(e) is Plain && old(self).block_hash is Some
== fn CollectedExt::add_spec_version
-- spec
        ensures
            r is Ok ==> old(self).spec_version_printed is None && (final(self).spec_version_printed matches Some(t) && t@ == spec_version.shown())
                && final(self).era == old(self).era && final(self).genesis_hash == old(self).genesis_hash && final(self).block_hash == old(self).block_hash,
            r matches Err(e) ==> kind_signable(e) is Plain && old(self).spec_version_printed is Some
== fn check_extensions
-- spec
        ensures
            r is Ok <==> accepted(items(extensions@), version@, optional_genesis_hash),
            r matches Err(e) ==> kind_signable(e) is Plain
-- loop 1
    invariant
        __s1@ == extensions@, __i1 <= __s1@.len(), collected_ext.holds(items(extensions@).take(__i1 as int)),
    decreases __s1@.len() - __i1
-- loop 1 start
    proof {
        let s = items(extensions@);
        assert(s.take(__i1 + 1) =~= s.take(__i1 as int).push(item(extensions@[__i1 as int])));
        assert(s.take(__i1 as int).push(Item::Other).drop_last() =~= s.take(__i1 as int));
        lemma_grow(s, __i1 + 1);
    }
-- start
    proof { axiom_equality(); }
-- before `match collected_ext.spec_version_printed`
    proof { assert(items(extensions@).take(extensions@.len() as int) =~= items(extensions@)); }
== fn decode_extensions_unmarked
-- attr #[verifier::loop_isolation(false)] #[verifier::rlimit(80)] #[verifier::spinoff_prover]
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> match r {
                Ok(v) => extensions_at::<E, M>(*metadata, data.bytes(), *old(position) as int, optional_genesis_hash) == Ok::<Seq<ExtendedData>, K>(v@),
                Err(e) => extensions_at::<E, M>(*metadata, data.bytes(), *old(position) as int, optional_genesis_hash) == Err::<Seq<ExtendedData>, K>(kind_signable(e)),
            }
-- start
    hide(clean);
    proof { broadcast use lemma_clean, lemma_clean_same; }
    let ghost __p = *position;
    let ghost __f = ext_memory.faults();
-- loop 1
    invariant
        __s1@ == signed_extensions@, __i1 <= __s1@.len(), ext_memory.faults() >= __f, clean(__f, ext_memory.faults()),
        ext_memory.faults() == __f ==> run_of(registry.reg(), data.bytes(), __p as int, __s1@, __i1 as nat, true) == Ok::<(Seq<ExtendedData>, int), K>((extensions@, *position as int)),
    decreases __s1@.len() - __i1
-- loop 1 start
    proof {
        let w = run_of(registry.reg(), data.bytes(), __p as int, __s1@, (__i1 + 1) as nat, true);
        if w is Err { lemma_run_err(registry.reg(), data.bytes(), __p as int, __s1@, __s1@.len(), true, (__i1 + 1) as nat); }
    }
-- loop 2 pre
    let ghost __q = *position;
    let ghost __v = extensions@;
-- loop 2
    invariant
        __s2@ == signed_extensions@, __i2 <= __s2@.len(), ext_memory.faults() >= __f, clean(__f, ext_memory.faults()),
        ext_memory.faults() == __f ==> run_of(registry.reg(), data.bytes(), __p as int, __s2@, __s2@.len(), true) == Ok::<(Seq<ExtendedData>, int), K>((__v, __q as int)),
        ext_memory.faults() == __f ==> (run_of(registry.reg(), data.bytes(), __q as int, __s2@, __i2 as nat, false) matches Ok((w, p)) && p == *position && extensions@ == __v + w),
    decreases __s2@.len() - __i2
-- loop 2 start
    proof {
        let w = run_of(registry.reg(), data.bytes(), __q as int, __s2@, (__i2 + 1) as nat, false);
        if w is Err { lemma_run_err(registry.reg(), data.bytes(), __q as int, __s2@, __s2@.len(), false, (__i2 + 1) as nat); }
    }
== fn decode_extensions
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> match r {
                Ok(v) => extensions_at::<E, M>(*metadata, marked_data.whole().bytes(), marked_data.call_to() as int, optional_genesis_hash) == Ok::<Seq<ExtendedData>, K>(v@),
                Err(e) => extensions_at::<E, M>(*metadata, marked_data.whole().bytes(), marked_data.call_to() as int, optional_genesis_hash) == Err::<Seq<ExtendedData>, K>(kind_signable(e)),
            }
