//! Stand-in for `hgg`: an exact linear search with the interface cv-sfm uses.
use space::{Knn, KnnInsert, KnnMap, Metric, Neighbor};
#[derive(Clone, Debug)]
pub struct HggLite<M, K, V> {
    metric: M,
    items: Vec<(K, V)>,
}
impl<M: Default, K, V> Default for HggLite<M, K, V> {
    fn default() -> Self {
        Self { metric: M::default(), items: vec![] }
    }
}
impl<M, K, V> HggLite<M, K, V> {
    pub fn new(metric: M) -> Self {
        Self { metric, items: vec![] }
    }
    pub fn insert_knn(self, _knn: usize) -> Self {
        self
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn get_key(&self, ix: usize) -> Option<&K> {
        self.items.get(ix).map(|(k, _)| k)
    }
    pub fn get_value(&self, ix: usize) -> Option<&V> {
        self.items.get(ix).map(|(_, v)| v)
    }
}
impl<M: Metric<K>, K, V> Knn for HggLite<M, K, V> {
    type Point = K;
    type Unit = M::Unit;
    fn knn(&self, query: &K, num: usize) -> Vec<Neighbor<M::Unit>> {
        let mut all: Vec<Neighbor<M::Unit>> = self
            .items
            .iter()
            .enumerate()
            .map(|(index, (k, _))| Neighbor { index, distance: self.metric.distance(query, k) })
            .collect();
        all.sort_by_key(|n| n.distance);
        all.truncate(num);
        all
    }
}
impl<M: Metric<K>, K, V> KnnMap for HggLite<M, K, V> {
    type Value = V;
    fn get_value(&self, index: usize) -> &V {
        &self.items[index].1
    }
    fn knn_values(&self, query: &K, num: usize) -> Vec<(Neighbor<M::Unit>, &V)> {
        self.knn(query, num).into_iter().map(|n| (n, &self.items[n.index].1)).collect()
    }
}
impl<M: Metric<K>, K, V> KnnInsert for HggLite<M, K, V> {
    fn insert(&mut self, key: K, value: V) -> usize {
        self.items.push((key, value));
        self.items.len() - 1
    }
}
