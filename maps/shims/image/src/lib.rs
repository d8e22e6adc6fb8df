//! Stand-in for the parts of `image` that cv-sfm names. A `DynamicImage` also carries the features
//! that the stand-in of the detector reports for it.
pub trait Pixel: Copy {
    type Subpixel: Copy;
    const CHANNEL_COUNT: u8;
    fn channels(&self) -> &[Self::Subpixel];
    fn channels_mut(&mut self) -> &mut [Self::Subpixel];
    fn from_slice(s: &[Self::Subpixel]) -> Self;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rgb<T>(pub [T; 3]);
impl<T: Copy> Pixel for Rgb<T> {
    type Subpixel = T;
    const CHANNEL_COUNT: u8 = 3;
    fn channels(&self) -> &[T] {
        &self.0
    }
    fn channels_mut(&mut self) -> &mut [T] {
        &mut self.0
    }
    fn from_slice(s: &[T]) -> Self {
        Rgb([s[0], s[1], s[2]])
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Luma<T>(pub [T; 1]);
impl<T: Copy> Pixel for Luma<T> {
    type Subpixel = T;
    const CHANNEL_COUNT: u8 = 1;
    fn channels(&self) -> &[T] {
        &self.0
    }
    fn channels_mut(&mut self) -> &mut [T] {
        &mut self.0
    }
    fn from_slice(s: &[T]) -> Self {
        Luma([s[0]])
    }
}
#[derive(Clone, Debug)]
pub struct ImageBuffer<P: Pixel, C> {
    width: u32,
    height: u32,
    data: C,
    pixel: std::marker::PhantomData<P>,
}
pub type RgbImage = ImageBuffer<Rgb<u8>, Vec<u8>>;
pub type GrayImage = ImageBuffer<Luma<u8>, Vec<u8>>;
impl<P: Pixel> ImageBuffer<P, Vec<P::Subpixel>> {
    pub fn from_raw(width: u32, height: u32, data: Vec<P::Subpixel>) -> Option<Self> {
        (data.len() == width as usize * height as usize * P::CHANNEL_COUNT as usize)
            .then(|| Self { width, height, data, pixel: std::marker::PhantomData })
    }
    pub fn from_fn(width: u32, height: u32, mut f: impl FnMut(u32, u32) -> P) -> Self {
        let mut data = Vec::new();
        for y in 0..height {
            for x in 0..width {
                data.extend_from_slice(f(x, y).channels());
            }
        }
        Self { width, height, data, pixel: std::marker::PhantomData }
    }
    pub fn get_pixel(&self, x: u32, y: u32) -> P {
        assert!(x < self.width && y < self.height, "pixel ({x}, {y}) outside the image");
        let n = P::CHANNEL_COUNT as usize;
        let at = (y as usize * self.width as usize + x as usize) * n;
        P::from_slice(&self.data[at..at + n])
    }
    pub fn width(&self) -> u32 {
        self.width
    }
    pub fn height(&self) -> u32 {
        self.height
    }
    pub fn dimensions(&self) -> (u32, u32) {
        (self.width, self.height)
    }
}
pub trait GenericImageView {
    type Pixel: Pixel;
    fn dimensions(&self) -> (u32, u32);
    fn get_pixel(&self, x: u32, y: u32) -> Self::Pixel;
    /// # Safety
    /// The stand-in checks the coordinates, so that a read outside the image is an abort and not a guess.
    unsafe fn unsafe_get_pixel(&self, x: u32, y: u32) -> Self::Pixel {
        self.get_pixel(x, y)
    }
}
impl<P: Pixel> GenericImageView for ImageBuffer<P, Vec<P::Subpixel>> {
    type Pixel = P;
    fn dimensions(&self) -> (u32, u32) {
        (self.width, self.height)
    }
    fn get_pixel(&self, x: u32, y: u32) -> P {
        ImageBuffer::get_pixel(self, x, y)
    }
}
/// A feature which the stand-in of the detector reports.
#[derive(Clone, Debug)]
pub struct Scripted {
    pub point: (f32, f32),
    /// where the point is precisely, if it is told
    pub fine: Option<(f64, f64)>,
    pub response: f32,
    pub descriptor: [u8; 64],
}
#[derive(Clone, Debug)]
pub struct DynamicImage {
    pub rgb: RgbImage,
    pub features: Vec<Scripted>,
}
impl DynamicImage {
    pub fn to_rgb8(&self) -> RgbImage {
        self.rgb.clone()
    }
}
