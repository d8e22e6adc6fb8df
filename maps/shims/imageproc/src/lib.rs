//! Stand-in for the parts of `imageproc` that cv-sfm names.
pub mod definitions {
    pub type Image<P> = image::ImageBuffer<P, Vec<<P as image::Pixel>::Subpixel>>;
    pub trait Clamp<T> {
        fn clamp(x: T) -> Self;
    }
    impl Clamp<f32> for u8 {
        fn clamp(x: f32) -> u8 {
            if x < 255.0 {
                if x > 0.0 { x as u8 } else { 0 }
            } else {
                255
            }
        }
    }
    impl Clamp<f32> for f32 {
        fn clamp(x: f32) -> f32 {
            x
        }
    }
}
pub mod math {
    pub fn cast<T: conv::ValueInto<f32>>(x: T) -> f32 {
        x.value_into_lossy()
    }
}
