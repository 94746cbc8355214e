//! Stand-in for imageproc: the only function the repository uses. Histogram equalisation is replaced by
//! a fixed invertible pixel map, so that an equalised image stays distinguishable from the original.
pub mod contrast {
    use image::GrayImage;
    pub fn equalize_histogram(image: &GrayImage) -> GrayImage {
        let mut out = image.clone();
        for p in out.iter_mut() {
            *p = 255 - *p;
        }
        out
    }
}
