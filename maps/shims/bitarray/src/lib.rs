//! Stand-in for `bitarray`.
use std::ops::{Deref, DerefMut};
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct BitArray<const B: usize> {
    pub bytes: [u8; B],
}
impl<const B: usize> BitArray<B> {
    #[inline(never)]
    pub fn new(bytes: [u8; B]) -> Self {
        Self { bytes }
    }
    pub fn zeros() -> Self {
        Self { bytes: [0; B] }
    }
    pub fn bytes(&self) -> &[u8; B] {
        &self.bytes
    }
    pub fn distance(&self, other: &Self) -> u32 {
        self.bytes.iter().zip(&other.bytes).map(|(a, b)| (a ^ b).count_ones()).sum()
    }
}
impl<const B: usize> Deref for BitArray<B> {
    type Target = [u8; B];
    fn deref(&self) -> &[u8; B] {
        &self.bytes
    }
}
impl<const B: usize> DerefMut for BitArray<B> {
    fn deref_mut(&mut self) -> &mut [u8; B] {
        &mut self.bytes
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Hamming;
impl<const B: usize> space::Metric<BitArray<B>> for Hamming {
    type Unit = u32;
    fn distance(&self, a: &BitArray<B>, b: &BitArray<B>) -> u32 {
        a.distance(b)
    }
}
