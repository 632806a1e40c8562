== module error
== prelude
use external_memory_tools::{BufferError, ExternalMemory};
use primitive_types::H256;
use crate::traits::*;
//VERUS
/// Kinds of errors the properties tell apart.
pub enum K { Cyclic, InCompact(u32), Unused(int), Plain }
pub open spec fn kind_internal(e: RegistryInternalError) -> K {
    match e {
        RegistryInternalError::CyclicMetadata { id } => K::Cyclic,
        RegistryInternalError::UnexpectedCompactInsides { id } => K::InCompact(id),
        _ => K::Plain,
    }
}
pub open spec fn kind_registry<E: ExternalMemory>(e: RegistryError<E>) -> K {
    match e { RegistryError::Internal(i) => kind_internal(i), _ => K::Plain }
}
pub open spec fn kind<E: ExternalMemory>(e: ParserError<E>) -> K {
    match e {
        ParserError::Registry(x) => kind_registry(x),
        ParserError::SomeDataNotUsedBlob { from } => K::Unused(from as int),
        _ => K::Plain,
    }
}
pub open spec fn kind_signable<E: ExternalMemory, M: AsMetadata<E>>(e: SignableError<E, M>) -> K {
    match e {
        SignableError::Parsing(x) => kind(x),
        SignableError::SomeDataNotUsedCall { from, to } => K::Unused(from as int),
        SignableError::SomeDataNotUsedExtensions { from } => K::Unused(from as int),
        _ => K::Plain,
    }
}
pub open spec fn plain<T>(o: Option<T>) -> Result<T, K> { match o { Some(x) => Ok(x), None => Err(K::Plain) } }
/// the position moved on within the data
pub open spec fn moved(p0: usize, p1: usize, b: Seq<u8>) -> bool { p0 < p1 <= b.len() && b.len() <= isize::MAX }
/// the position moved within the data, or stayed
pub open spec fn kept(p0: usize, p1: usize, b: Seq<u8>) -> bool { p0 == p1 || moved(p0, p1, b) }
/// outcome of reading one item: the wanted value and position, or an error that leaves the position where it was;
/// an error other than the wanted one comes only with a failed access to external memory
pub open spec fn leaf<E: ExternalMemory, T>(r: Result<T, ParserError<E>>, f0: nat, f1: nat, p0: usize, p1: usize, want: Result<(T, int), K>) -> bool {
    &&& f1 >= f0
    &&& r matches Ok(v) ==> f1 == f0 && want == Ok::<(T, int), K>((v, p1 as int))
    &&& r matches Err(e) ==> p1 == p0 && (f1 == f0 ==> want == Err::<(T, int), K>(kind(e)))
}
impl<E: ExternalMemory> vstd::std_specs::convert::FromSpecImpl<BufferError<E>> for ParserError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: BufferError<E>) -> Self { ParserError::Buffer(e) }
}
impl<E: ExternalMemory> vstd::std_specs::convert::FromSpecImpl<RegistryError<E>> for ParserError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: RegistryError<E>) -> Self { ParserError::Registry(e) }
}
impl<E: ExternalMemory> vstd::std_specs::convert::FromSpecImpl<RegistryInternalError> for ParserError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: RegistryInternalError) -> Self { ParserError::Registry(RegistryError::Internal(e)) }
}
impl<E: ExternalMemory> vstd::std_specs::convert::FromSpecImpl<RegistryInternalError> for RegistryError<E> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: RegistryInternalError) -> Self { RegistryError::Internal(e) }
}
impl<E: ExternalMemory, M: AsMetadata<E>> vstd::std_specs::convert::FromSpecImpl<ParserError<E>> for SignableError<E, M> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ParserError<E>) -> Self { SignableError::Parsing(e) }
}
impl<E: ExternalMemory, M: AsMetadata<E>> vstd::std_specs::convert::FromSpecImpl<ParserError<E>> for UncheckedExtrinsicError<E, M> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ParserError<E>) -> Self { UncheckedExtrinsicError::Parsing(e) }
}
pub open spec fn kind_unchecked<E: ExternalMemory, M: AsMetadata<E>>(e: UncheckedExtrinsicError<E, M>) -> K {
    match e { UncheckedExtrinsicError::Parsing(x) => kind(x), _ => K::Plain }
}
impl vstd::std_specs::convert::FromSpecImpl<MetaVersionErrorPallets> for MetaStructureErrorV14 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: MetaVersionErrorPallets) -> Self { MetaStructureErrorV14::Version(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<RegistryInternalError> for MetaStructureErrorV14 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: RegistryInternalError) -> Self { MetaStructureErrorV14::ExtrinsicTypeNotResolved(e) }
}
impl From<RegistryError<VxMem>> for MetaStructureErrorV14 {
    #[verifier::external_body]
    fn from(registry_error_extrinsic: RegistryError<VxMem>) -> Self { unreachable!() }
}
== type SignableError #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(M)]
== type UncheckedExtrinsicError #[verifier::reject_recursive_types(E)] #[verifier::reject_recursive_types(M)]
== fn SignableError<E,M> as From<ParserError<E>>::from
== fn UncheckedExtrinsicError<E,M> as From<ParserError<E>>::from
== fn ParserError<E> as From<BufferError<E>>::from
== fn ParserError<E> as From<RegistryInternalError>::from
== fn ParserError<E> as From<RegistryError<E>>::from
== fn RegistryError<E> as From<RegistryInternalError>::from
== type ParserError #[verifier::reject_recursive_types(E)]
== type RegistryError #[verifier::reject_recursive_types(E)]
== type StorageError #[verifier::reject_recursive_types(E)]
== fn MetaStructureErrorV14 as From<MetaVersionErrorPallets>::from
== fn MetaStructureErrorV14 as From<RegistryInternalError>::from
