== module lib
== prelude
use core::any::TypeId;
use core::marker::PhantomData;
use external_memory_tools::{AddressableBuffer, ExternalMemory};
use primitive_types::H256;
use scale_info::interner::UntrackedSymbol;
use crate::cards::*;
use crate::compacts::*;
use crate::decoding_sci::*;
use crate::decoding_sci_ext::*;
use crate::error::*;
use crate::propagated::*;
use crate::special_indicators::*;
use crate::traits::*;
//VERUS
impl<'a, B: AddressableBuffer<E>, E: ExternalMemory, M: AsMetadata<E>> MarkedData<'a, B, E, M> {
    /// the call is within the data
    #[verifier::type_invariant]
    pub closed spec fn within(self) -> bool { self.call_start <= self.extensions_start <= self.data.bytes().len() }
    pub closed spec fn whole(self) -> &'a B { self.data }
    pub closed spec fn call_from(self) -> usize { self.call_start }
    pub closed spec fn call_to(self) -> usize { self.extensions_start }
}
/// length-prefixed call and the rest
pub open spec fn split_at(b: Seq<u8>) -> Option<(int, int)> {
    match compact_at::<u32>(b, 0) { Some((n, p)) => if p + n <= b.len() { Some((p, p + n)) } else { None }, None => None }
}
/// whole data as a type
pub open spec fn blob(reg: Registry, b: Seq<u8>, id: u32) -> Result<ExtendedData, K> {
    match decoded(reg, b, 0, id, SpecialtySet { compact_at: None, hint: Hint::None }, Seq::empty(), Seq::empty()) {
        Ok((x, p)) => if p == b.len() { Ok(x) } else { Err(K::Unused(p)) },
        Err(k) => Err(k),
    }
}
== type MarkedData private #[verifier::reject_recursive_types(B)] #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(M)]
== type TransactionParsed #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(M)]
== type TransactionCarded #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(M)]
== fn TransactionParsed<E,M>::card
-- spec
        requires
            forall|i: int| 0 <= i < self.extensions@.len() ==> deep((#[trigger] self.extensions@[i]).data) <= u32::MAX,
            self.call_result matches Ok(c) ==> deep_pallet(c.0) <= u32::MAX,
        ensures
            all_fit(r.extensions@, wanted_items(self.extensions, self.extensions@.len(), 0, true, *short_specs, spec_name@), *short_specs),
            match self.call_result {
                Ok(c) => r.call_result matches Ok(v) && all_fit(v@, wanted_pallet(c.0, PalletSpecificItem::Call, 0, *short_specs, spec_name@), *short_specs),
                Err(e) => r.call_result == Err::<Vec<ExtendedCard>, SignableError<E, M>>(e),
            }
-- rewrite `self.call_result.map(|call| $x)` => `(match self.call_result { Result::Ok(call) => Result::Ok($x), Result::Err(__e) => Result::Err(__e) })` ?
-- rewrite `extensions.extend_from_slice($x)` => `vx_extend(&mut extensions, $x)` ?
-- loop 1
    invariant
        __s1@ == self.extensions@, __i1 <= __s1@.len(), start_indent == 0,
        forall|i: int| 0 <= i < self.extensions@.len() ==> deep((#[trigger] self.extensions@[i]).data) <= u32::MAX,
        all_fit(extensions@, wanted_items(self.extensions, __i1 as nat, 0, true, *short_specs, spec_name@), *short_specs),
    decreases __s1@.len() - __i1
-- loop 1 start
    proof {
        let w = wanted_items(self.extensions, __i1 as nat, 0, true, *short_specs, spec_name@);
        let x = wanted(self.extensions@[__i1 as int].data, flats(self.extensions@[__i1 as int].info@), 0, true, *short_specs, spec_name@);
        lemma_more(extensions@, w, x, *short_specs);
        assert(wanted_items(self.extensions, (__i1 + 1) as nat, 0, true, *short_specs, spec_name@) == w + x);
        assert(x.len() == 0 ==> w + x =~= w);
    }
== fn TransactionUnmarkedParsed::card
-- spec
        requires
            forall|i: int| 0 <= i < self.extensions@.len() ==> deep((#[trigger] self.extensions@[i]).data) <= u32::MAX,
            deep_pallet(self.call.0) <= u32::MAX,
        ensures
            all_fit(r.extensions@, wanted_items(self.extensions, self.extensions@.len(), 0, true, *short_specs, spec_name@), *short_specs),
            all_fit(r.call@, wanted_pallet(self.call.0, PalletSpecificItem::Call, 0, *short_specs, spec_name@), *short_specs),
-- rewrite `extensions.extend_from_slice($x)` => `vx_extend(&mut extensions, $x)` ?
-- loop 1
    invariant
        __s1@ == self.extensions@, __i1 <= __s1@.len(), start_indent == 0,
        forall|i: int| 0 <= i < self.extensions@.len() ==> deep((#[trigger] self.extensions@[i]).data) <= u32::MAX,
        all_fit(extensions@, wanted_items(self.extensions, __i1 as nat, 0, true, *short_specs, spec_name@), *short_specs),
    decreases __s1@.len() - __i1
-- loop 1 start
    proof {
        let w = wanted_items(self.extensions, __i1 as nat, 0, true, *short_specs, spec_name@);
        let x = wanted(self.extensions@[__i1 as int].data, flats(self.extensions@[__i1 as int].info@), 0, true, *short_specs, spec_name@);
        lemma_more(extensions@, w, x, *short_specs);
        assert(wanted_items(self.extensions, (__i1 + 1) as nat, 0, true, *short_specs, spec_name@) == w + x);
        assert(x.len() == 0 ==> w + x =~= w);
    }
== fn parse_transaction
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r matches Ok(t) && t.call_result is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r matches Ok(t) ==> pattern_missed() || split_at(data.bytes()) is Some
                && extensions_at::<E, M>(*metadata, data.bytes(), split_at(data.bytes()).unwrap().1, optional_genesis_hash) == Ok::<Seq<ExtendedData>, K>(t.extensions@),
            final(ext_memory).faults() == old(ext_memory).faults() ==> match split_at(data.bytes()) {
                Some((start, end)) => {
                    let ext = extensions_at::<E, M>(*metadata, data.bytes(), end, optional_genesis_hash);
                    let call = call_within(metadata.known_types(), data.bytes(), start, end, metadata.call_id());
                    match r {
                        Ok(t) => ext == Ok::<Seq<ExtendedData>, K>(t.extensions@) && match t.call_result { Ok(c) => call == Ok::<Call, K>(c), Err(e) => call == Err::<Call, K>(kind_signable(e)) },
                        Err(e) => ext == Err::<Seq<ExtendedData>, K>(kind_signable(e)),
                    }
                },
                None => r is Err,
            }
== fn parse_transaction_unmarked
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> match call_at(metadata.known_types(), data.bytes(), 0, metadata.call_id()) {
                Ok((call, p)) => match r {
                    Ok(t) => t.call == call && extensions_at::<E, M>(*metadata, data.bytes(), p, optional_genesis_hash) == Ok::<Seq<ExtendedData>, K>(t.extensions@),
                    Err(e) => extensions_at::<E, M>(*metadata, data.bytes(), p, optional_genesis_hash) == Err::<Seq<ExtendedData>, K>(kind_signable(e)),
                },
                Err(k) => r matches Err(e) && kind_signable(e) == k,
            }
== fn MarkedData<'a,B,E,M>::mark
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r matches Ok(m) ==> final(ext_memory).faults() == old(ext_memory).faults() && m.whole() == data && split_at(data.bytes()) == Some((m.call_from() as int, m.call_to() as int)),
            r is Err ==> (final(ext_memory).faults() == old(ext_memory).faults() ==> split_at(data.bytes()) is None)
== fn MarkedData<'a,B,E,M>::data
-- spec
        ensures r == self.whole()
== fn MarkedData<'a,B,E,M>::call_start
-- spec
        ensures r == self.call_from()
== fn MarkedData<'a,B,E,M>::extensions_start
-- spec
        ensures r == self.call_to()
== fn MarkedData<'a,B,E,M>::data_no_extensions
-- spec
        ensures r.bytes() == self.whole().bytes().take(self.call_to() as int), self.call_from() <= self.call_to() <= self.whole().bytes().len()
-- start
    proof { use_type_invariant(self); }
== fn decode_as_type_at_position
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            r is Ok ==> kept(*old(position), *final(position), data.bytes()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> outcome(r, *final(position), decoded(registry.reg(), data.bytes(), *old(position) as int, sym(*ty_symbol),
                SpecialtySet { compact_at: None, hint: Hint::None }, Seq::empty(), Seq::empty()))
== fn decode_all_as_type
-- spec
        ensures
            final(ext_memory).faults() >= old(ext_memory).faults(),
            r is Ok ==> clean(old(ext_memory).faults(), final(ext_memory).faults()),
            final(ext_memory).faults() == old(ext_memory).faults() ==> match r {
                Ok(x) => blob(registry.reg(), data.bytes(), sym(*ty_symbol)) == Ok::<ExtendedData, K>(x),
                Err(e) => blob(registry.reg(), data.bytes(), sym(*ty_symbol)) == Err::<ExtendedData, K>(kind(e)),
            }
