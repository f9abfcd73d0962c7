//! rkyv helpers.
use rkyv::ser::{serializers::*, Serializer};
pub use rkyv::AlignedVec;

pub type Ser = CompositeSerializer<AlignedSerializer<AlignedVec>, FallbackScratch<HeapScratch<1024>, AllocScratch>, SharedSerializeMap>;

pub fn to_bytes<T: rkyv::Serialize<Ser>>(x: &T) -> AlignedVec {
    let mut s = Ser::default();
    s.serialize_value(x).unwrap();
    s.into_serializer().into_inner()
}
/// only for bytes produced by to_bytes of the same type
pub fn root<T: rkyv::Archive>(b: &[u8]) -> &T::Archived {
    unsafe { rkyv::archived_root::<T>(b) }
}

/// several values in one archive, sharing what is shared
pub struct Many {
    s: Ser,
}
impl Default for Many {
    fn default() -> Self {
        Many { s: Ser::default() }
    }
}
impl Many {
    /// position of x
    pub fn add<T: rkyv::Serialize<Ser>>(&mut self, x: &T) -> usize {
        self.s.serialize_value(x).unwrap()
    }
    /// bytes of something else in between
    pub fn junk(&mut self, n: usize) {
        self.s.write(&vec![0xEE; n]).unwrap();
    }
    pub fn done(self) -> AlignedVec {
        self.s.into_serializer().into_inner()
    }
}
/// only for positions returned by Many::add for the same type
pub fn at<T: rkyv::Archive>(b: &[u8], pos: usize) -> &T::Archived {
    unsafe { rkyv::archived_value::<T>(b, pos) }
}
/// the same bytes in an allocation of exactly their size
pub fn exact(b: &[u8]) -> AlignedVec {
    let mut v = AlignedVec::with_capacity(b.len());
    v.extend_from_slice(b);
    v
}
