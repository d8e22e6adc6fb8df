//! Stand-in for `conv`.
pub trait ValueInto<T> {
    fn value_into_lossy(self) -> T;
}
impl ValueInto<f32> for u8 {
    fn value_into_lossy(self) -> f32 {
        self as f32
    }
}
impl ValueInto<f32> for f32 {
    fn value_into_lossy(self) -> f32 {
        self
    }
}
