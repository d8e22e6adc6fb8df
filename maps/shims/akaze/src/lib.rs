//! Stand-in for the detector: it reports what the image was scripted with.
use bitarray::BitArray;
use cv_core::{nalgebra::Point2, ImagePoint};
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct KeyPoint {
    pub point: (f32, f32),
    pub response: f32,
    pub size: f32,
    pub octave: usize,
    pub class_id: usize,
    pub angle: f32,
    fine: Option<(f64, f64)>,
}
impl ImagePoint for KeyPoint {
    fn image_point(&self) -> Point2<f64> {
        let (x, y) = self.fine.unwrap_or((self.point.0 as f64, self.point.1 as f64));
        Point2::new(x, y)
    }
}
pub struct Akaze {
    pub maximum_features: usize,
    pub detector_threshold: f64,
}
impl Akaze {
    pub fn new(threshold: f64) -> Self {
        Self { maximum_features: usize::MAX, detector_threshold: threshold }
    }
    pub fn extract(&self, image: &image::DynamicImage) -> (Vec<KeyPoint>, Vec<BitArray<64>>) {
        let mut all: Vec<&image::Scripted> = image.features.iter().collect();
        if all.len() > self.maximum_features {
            all.sort_by(|a, b| b.response.partial_cmp(&a.response).unwrap());
            all.truncate(self.maximum_features);
        }
        all.into_iter()
            .map(|f| {
                (
                    KeyPoint { point: f.point, response: f.response, size: 1.0, octave: 0, class_id: 0, angle: 0.0, fine: f.fine },
                    BitArray::new(f.descriptor),
                )
            })
            .unzip()
    }
}
