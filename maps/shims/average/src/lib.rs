//! Stand-in for `average::Mean`.
#[derive(Clone, Debug, Default)]
pub struct Mean {
    avg: f64,
    n: u64,
}
impl Mean {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&mut self, x: f64) {
        self.n += 1;
        self.avg += (x - self.avg) / self.n as f64;
    }
    pub fn mean(&self) -> f64 {
        self.avg
    }
    pub fn len(&self) -> u64 {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
}
impl std::iter::FromIterator<f64> for Mean {
    fn from_iter<I: IntoIterator<Item = f64>>(it: I) -> Self {
        let mut m = Mean::new();
        for x in it {
            m.add(x);
        }
        m
    }
}
impl Extend<f64> for Mean {
    fn extend<I: IntoIterator<Item = f64>>(&mut self, it: I) {
        for x in it {
            self.add(x);
        }
    }
}
