//! Deterministic random numbers, external memory models and small helpers.
use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
use scale_info::{form::PortableForm, interner::UntrackedSymbol, Type};
use std::any::TypeId;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::Rc;
use substrate_parser::error::{RegistryError, RegistryInternalError};
use substrate_parser::traits::{
    AsCompleteMetadata, AsMetadata, ExtrinsicTypeParams, ResolveType, SignedExtensionMetadata,
    SpecNameVersion,
};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, stream: u64, case: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03) ^ case.wrapping_mul(0x8CB92BA72F3D8DD7));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    #[track_caller]
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0, "nothing to choose from");
        (self.next() % (n as u64)) as usize
    }
    #[track_caller]
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    #[track_caller]
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    #[track_caller]
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n)
            .map(|_| match self.below(8) {
                0 => 0,
                1 => 0xff,
                2 => self.below(8) as u8,
                _ => self.next() as u8,
            })
            .collect()
    }
    /// Number with interesting boundaries.
    pub fn num(&mut self) -> u128 {
        let bits = self.below(129);
        let raw = ((self.next() as u128) << 64) | self.next() as u128;
        let cut = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        match self.below(6) {
            0 => cut,
            1 => cut.wrapping_add(1),
            2 => self.below(300) as u128,
            3 => cut.wrapping_sub(self.below(3) as u128),
            _ => raw & cut,
        }
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// External memory: pages of bytes, a read counter, an optional fault.
#[derive(Debug, Default)]
pub struct Mem {
    pub page: usize,
    pub pages: Vec<Vec<u8>>,
    pub reads: usize,
    pub fail_at: Option<usize>,
    pub fail_for: usize,
    pub max_read: usize,
    pub faulted: bool,
}
#[derive(Debug, Eq, PartialEq)]
pub struct Fault;
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "fault")
    }
}
impl ExternalMemory for Mem {
    type ExternalMemoryError = Fault;
}
impl Mem {
    pub fn with(data: &[u8], page: usize) -> Self {
        Mem { page, pages: data.chunks(page).map(|c| c.to_vec()).collect(), ..Default::default() }
    }
    pub fn tick(&mut self) -> Result<(), Fault> {
        let n = self.reads;
        self.reads += 1;
        if let Some(f) = self.fail_at {
            if n >= f && n - f < self.fail_for.max(1) {
                self.faulted = true;
                return Err(Fault);
            }
        }
        Ok(())
    }
}

/// Buffer of `len` bytes held in `Mem`.
#[derive(Debug, Clone)]
pub struct PBuf {
    pub len: usize,
}
impl AddressableBuffer<Mem> for PBuf {
    type ReadBuffer = Vec<u8>;
    fn total_len(&self) -> usize {
        self.len
    }
    fn read_slice(&self, m: &mut Mem, position: usize, slice_len: usize) -> Result<Vec<u8>, BufferError<Mem>> {
        if self.len < position {
            return Err(BufferError::OutOfRange { position, total_length: self.len });
        }
        let end = match position.checked_add(slice_len) {
            Some(e) if e <= self.len => e,
            _ => return Err(BufferError::DataTooShort { position, minimal_length: slice_len }),
        };
        m.tick().map_err(BufferError::External)?;
        m.max_read = m.max_read.max(end);
        let mut out = Vec::with_capacity(slice_len);
        for i in position..end {
            out.push(m.pages[i / m.page][i % m.page])
        }
        Ok(out)
    }
    fn limit_length(&self, new_len: usize) -> Result<Self, BufferError<Mem>> {
        if new_len > self.len {
            Err(BufferError::DataTooShort { position: 0, minimal_length: new_len })
        } else {
            Ok(PBuf { len: new_len })
        }
    }
}

/// Slice with reads that are counted and bounded: the largest byte position
/// requested is recorded.
#[derive(Clone, Debug)]
pub struct Spy<'a> {
    pub b: &'a [u8],
    pub max: Rc<Cell<usize>>,
}
impl<'a> AddressableBuffer<()> for Spy<'a> {
    type ReadBuffer = &'a [u8];
    fn total_len(&self) -> usize {
        self.b.len()
    }
    fn read_slice(&self, m: &mut (), position: usize, slice_len: usize) -> Result<&'a [u8], BufferError<()>> {
        let out = AddressableBuffer::<()>::read_slice(&self.b, m, position, slice_len)?;
        self.max.set(self.max.get().max(position + slice_len));
        Ok(out)
    }
    fn limit_length(&self, new_len: usize) -> Result<Self, BufferError<()>> {
        Ok(Spy { b: AddressableBuffer::<()>::limit_length(&self.b, new_len)?, max: self.max.clone() })
    }
}

pub type Ty = Type<PortableForm>;
pub type Sym = UntrackedSymbol<TypeId>;
pub fn sym(id: u32) -> Sym {
    id.into()
}

#[derive(Clone, Debug, Default)]
pub struct Reg(pub Rc<BTreeMap<u32, Ty>>);

impl ResolveType<()> for Reg {
    fn resolve_ty(&self, id: u32, _m: &mut ()) -> Result<Ty, RegistryError<()>> {
        self.0.get(&id).cloned().ok_or(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id }))
    }
}
impl ResolveType<Mem> for Reg {
    fn resolve_ty(&self, id: u32, m: &mut Mem) -> Result<Ty, RegistryError<Mem>> {
        m.tick().map_err(RegistryError::External)?;
        self.0.get(&id).cloned().ok_or(RegistryError::Internal(RegistryInternalError::TypeNotResolved { id }))
    }
}

#[derive(Clone, Debug, Eq, PartialEq)]
pub struct MErr;
impl std::fmt::Display for MErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "metadata error")
    }
}

#[derive(Clone, Debug, Default)]
pub struct Meta {
    pub reg: Reg,
    pub version: String,
    pub name: String,
    pub call: u32,
    pub exts: Vec<(String, u32, u32)>,
    pub address: u32,
    pub signature: u32,
    pub extra: u32,
    pub ext_version: u8,
}
impl<E: ExternalMemory> AsMetadata<E> for Meta
where
    Reg: ResolveType<E>,
{
    type TypeRegistry = Reg;
    type MetaStructureError = MErr;
    fn types(&self) -> Reg {
        self.reg.clone()
    }
    fn spec_name_version(&self) -> Result<SpecNameVersion, MErr> {
        Ok(SpecNameVersion { printed_spec_version: self.version.clone(), spec_name: self.name.clone() })
    }
    fn call_ty(&self) -> Result<Sym, MErr> {
        Ok(sym(self.call))
    }
    fn signed_extensions(&self) -> Result<Vec<SignedExtensionMetadata>, MErr> {
        Ok(self
            .exts
            .iter()
            .map(|(i, t, a)| SignedExtensionMetadata { identifier: i.clone(), ty: sym(*t), additional_signed: sym(*a) })
            .collect())
    }
}
impl<E: ExternalMemory> AsCompleteMetadata<E> for Meta
where
    Reg: ResolveType<E>,
{
    fn extrinsic_type_params(&self) -> Result<ExtrinsicTypeParams, MErr> {
        Ok(ExtrinsicTypeParams {
            address_ty: sym(self.address),
            call_ty: sym(self.call),
            signature_ty: sym(self.signature),
            extra_ty: sym(self.extra),
        })
    }
    fn extrinsic_version(&self) -> Result<u8, MErr> {
        Ok(self.ext_version)
    }
}
