//! Stand-in for `hamming-lsh`: one bit per codeword, set when it is the nearest of a descriptor.
use bitarray::BitArray;
pub struct HammingHasher<const B: usize, const H: usize> {
    codewords: Vec<BitArray<B>>,
}
impl<const B: usize, const H: usize> HammingHasher<B, H> {
    pub fn new_with_codewords(codewords: Vec<BitArray<B>>) -> Self {
        Self { codewords }
    }
    pub fn hash_bag<'a>(&self, features: impl IntoIterator<Item = &'a BitArray<B>>) -> BitArray<H> {
        let mut out = BitArray::zeros();
        for f in features {
            if let Some(ix) = (0..self.codewords.len()).min_by_key(|&ix| self.codewords[ix].distance(f)) {
                out.bytes[(ix / 8) % H] |= 1 << (ix % 8);
            }
        }
        out
    }
}
