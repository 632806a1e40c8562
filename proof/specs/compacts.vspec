== module compacts
== prelude
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use parity_scale_codec::{Compact, Decode, HasCompact};
use crate::error::*;
//VERUS
pub open spec fn found<T: VxCompact>(f: Option<FoundCompact<T>>, b: Seq<u8>, pos: int) -> bool {
    f matches Some(x) ==> compact_at::<T>(b, pos) == Some((x.compact, x.start_next_unit as int))
}
== fn find_compact
-- spec
    requires T::compact_max() <= u128::MAX,
    ensures
        final(ext_memory).faults() >= old(ext_memory).faults(),
        r matches Ok(f) ==> final(ext_memory).faults() == old(ext_memory).faults()
            && compact_at::<T>(data.bytes(), position as int) == Some((f.compact, f.start_next_unit as int))
            && position < f.start_next_unit <= data.bytes().len() <= isize::MAX,
        r matches Err(e) ==> kind(e) is Plain,
 r matches Err(e) ==> (final(ext_memory).faults() == old(ext_memory).faults() ==> compact_at::<T>(data.bytes(), position as int) is None),
-- rewrite `<Compact<T>>::decode(&mut hippo.as_ref())` => `T::vx_decode_compact(hippo.as_ref())`
-- loop 1
    invariant_except_break
        out is None,
        out is None ==> compact_of::<T>(data.bytes().skip(position as int).take(if __i1 > 18 { 18 } else { __i1 as int })) is None,
    invariant
        position <= data.bytes().len() <= isize::MAX,
        __e1 == data.bytes().len() - position,
        __i1 <= __e1,
        T::compact_max() <= u128::MAX,
        ext_memory.faults() == old(ext_memory).faults(),
    ensures
        ext_memory.faults() == old(ext_memory).faults(),
        out is None ==> compact_of::<T>(data.bytes().skip(position as int).take(if data.bytes().len() - position > 18 { 18 } else { data.bytes().len() - position })) is None,
        found::<T>(out, data.bytes(), position as int),
    decreases __e1 - __i1
-- loop 1 start
    proof {
        let rest = data.bytes().skip(position as int);
        assert(data.bytes().subrange(position as int, position + __i1 + 1) =~= rest.take(__i1 + 1));
        lemma_compact_prefix(rest, __i1 + 1);
        lemma_compact_prefix(rest, __i1 as int);
    }
-- before `match out`
    proof {
        let rest = data.bytes().skip(position as int);
        lemma_compact_len(rest);
        lemma_compact_prefix(rest, if rest.len() > 18 { 18 } else { rest.len() as int });
    }
== fn get_compact
-- spec
    requires T::compact_max() <= u128::MAX,
    ensures
        final(ext_memory).faults() >= old(ext_memory).faults(),
        r matches Ok(v) ==> final(ext_memory).faults() == old(ext_memory).faults()
            && compact_at::<T>(data.bytes(), *old(position) as int) == Some((v, *final(position) as int))
            && *old(position) < *final(position) <= data.bytes().len() <= isize::MAX,
        r matches Err(e) ==> kind(e) is Plain,
 r matches Err(e) ==> *final(position) == *old(position)
            && (final(ext_memory).faults() == old(ext_memory).faults() ==> compact_at::<T>(data.bytes(), *old(position) as int) is None),
