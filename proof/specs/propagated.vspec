== module propagated
== prelude
use scale_info::{form::PortableForm, Field, Path, Type};
use crate::cards::*;
use crate::error::*;
use crate::special_indicators::*;
use crate::traits::*;
//VERUS
/// asset tip designation persists, other roles end
pub open spec fn forget(h: Hint) -> Hint { if h is ChargeAssetTxPayment { h } else { Hint::None } }
/// first designation wins
pub open spec fn first_hint(h: Hint, other: Hint) -> Hint { if h is None { other } else { h } }
pub open spec fn compact_kind(c: Option<u32>) -> Option<K> { match c { Some(id) => Some(K::InCompact(id)), None => None } }
/// the chain of types after entering `id`, if it was not there yet
pub open spec fn entered(before: Checker, after: Checker, id: u32, hint: Hint) -> bool {
    !before.cycle_check@.contains(id) && after.cycle_check@ == before.cycle_check@.push(id)
        && after.specialty_set == SpecialtySet { compact_at: before.specialty_set.compact_at, hint }
}
== fn SpecialtySet::new
-- spec
        ensures r.compact_at is None, r.hint is None
== fn SpecialtySet::reject_compact
-- spec
        ensures
            r is Ok <==> self.compact_at is None,
            r matches Err(e) ==> compact_kind(self.compact_at) == Some(kind_internal(e))
== fn SpecialtySet::update_from_path
-- spec
        ensures *final(self) == (SpecialtySet { compact_at: old(self).compact_at, hint: first_hint(old(self).hint, hint_of_path(*path)) })
== fn SpecialtySet::forget_hint
-- spec
        ensures *final(self) == (SpecialtySet { compact_at: old(self).compact_at, hint: forget(old(self).hint) })
== fn SpecialtySet::unsigned_integer
-- spec
        ensures r == role_uint(self.hint)
== fn SpecialtySet::hash256
-- spec
        ensures r == role_hash(self.hint)
== fn Checker::new
-- spec
        ensures r.specialty_set.compact_at is None, r.specialty_set.hint is None, r.cycle_check@ == Seq::<u32>::empty()
== fn Checker::reject_compact
-- spec
        ensures
            r is Ok <==> self.specialty_set.compact_at is None,
            r matches Err(e) ==> compact_kind(self.specialty_set.compact_at) == Some(kind_internal(e))
== fn Checker::forget_hint
-- spec
        ensures
            final(self).cycle_check@ == old(self).cycle_check@,
            final(self).specialty_set == (SpecialtySet { compact_at: old(self).specialty_set.compact_at, hint: forget(old(self).specialty_set.hint) })
== fn Checker::update_for_field
-- spec
        ensures
            r matches Ok(c) ==> entered(*self, c, field.ty.id_spec(), first_hint(self.specialty_set.hint, hint_of_field(*field))),
            r matches Err(e) ==> kind_internal(e) is Cyclic && self.cycle_check@.contains(field.ty.id_spec())
== fn Checker::update_for_ty
-- spec
        ensures
            r matches Ok(c) ==> entered(*self, c, id, first_hint(self.specialty_set.hint, hint_of_path(ty.path))),
            r matches Err(e) ==> kind_internal(e) is Cyclic && self.cycle_check@.contains(id)
== fn Checker::drop_cycle_check
-- spec
        ensures final(self).cycle_check@ == Seq::<u32>::empty(), final(self).specialty_set == old(self).specialty_set
== fn Checker::check_id
-- spec
        ensures
            r is Ok ==> entered(*old(self), *final(self), id, old(self).specialty_set.hint),
            r matches Err(e) ==> kind_internal(e) is Cyclic && old(self).cycle_check@.contains(id)
-- rewrite `self.cycle_check.contains(&id)` => `vx_contains(&self.cycle_check, &id)`
== fn Propagated::new
-- spec
        ensures r.checker.specialty_set.compact_at is None, r.checker.specialty_set.hint is None, r.checker.cycle_check@ == Seq::<u32>::empty(), r.info@ == Seq::<Info>::empty()
== fn Propagated::from_ext_meta
-- spec
        ensures r.checker.specialty_set.compact_at is None, r.checker.specialty_set.hint == hint_of_extension(signed_ext_meta.identifier@),
            r.checker.cycle_check@ == Seq::<u32>::empty(), r.info@ == Seq::<Info>::empty()
== fn Propagated::with_checker
-- spec
        ensures r.checker == checker, r.info@ == Seq::<Info>::empty()
== fn Propagated::for_field
-- spec
        ensures
            r matches Ok(p) ==> p.info@ == Seq::<Info>::empty() && entered(*checker, p.checker, field.ty.id_spec(), first_hint(checker.specialty_set.hint, hint_of_field(*field))),
            r matches Err(e) ==> kind_internal(e) is Cyclic && checker.cycle_check@.contains(field.ty.id_spec())
== fn Propagated::for_ty
-- spec
        ensures
            r matches Ok(p) ==> p.info@ == Seq::<Info>::empty() && entered(*checker, p.checker, id, first_hint(checker.specialty_set.hint, hint_of_path(ty.path))),
            r matches Err(e) ==> kind_internal(e) is Cyclic && checker.cycle_check@.contains(id)
== fn Propagated::compact_at
-- spec
        ensures r == self.checker.specialty_set.compact_at
== fn Propagated::reject_compact
-- spec
        ensures
            r is Ok <==> self.checker.specialty_set.compact_at is None,
            r matches Err(e) ==> compact_kind(self.checker.specialty_set.compact_at) == Some(kind_internal(e))
== fn Propagated::forget_hint
-- spec
        ensures
            final(self).info@ == old(self).info@,
            final(self).checker.cycle_check@ == old(self).checker.cycle_check@,
            final(self).checker.specialty_set == (SpecialtySet { compact_at: old(self).checker.specialty_set.compact_at, hint: forget(old(self).checker.specialty_set.hint) })
== fn Propagated::add_info
-- spec
        ensures final(self).checker == old(self).checker, final(self).info@ == info_add(old(self).info@, *info_update)
== fn Propagated::add_info_slice
-- spec
        ensures final(self).checker == old(self).checker, final(self).info@ == old(self).info@ + info_update_slice@
-- rewrite `self.info.extend_from_slice(info_update_slice)` => `vx_extend(&mut self.info, info_update_slice)`
