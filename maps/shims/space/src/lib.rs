//! Stand-in for the parts of `space` that cv-sfm names.
pub trait Metric<P> {
    type Unit: Copy + Ord;
    fn distance(&self, a: &P, b: &P) -> Self::Unit;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Neighbor<Unit, Ix = usize> {
    pub index: Ix,
    pub distance: Unit,
}
pub trait Knn {
    type Point;
    type Unit;
    fn knn(&self, query: &Self::Point, num: usize) -> Vec<Neighbor<Self::Unit>>;
}
pub trait KnnPoints: Knn {
    fn get_point(&self, index: usize) -> &Self::Point;
}
pub trait KnnMap: Knn {
    type Value;
    fn get_value(&self, index: usize) -> &Self::Value;
    fn knn_values(&self, query: &Self::Point, num: usize) -> Vec<(Neighbor<Self::Unit>, &Self::Value)>;
}
pub trait KnnInsert: KnnMap {
    fn insert(&mut self, key: Self::Point, value: Self::Value) -> usize;
}
