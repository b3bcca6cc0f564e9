//! A float that is compared by its bits.

#[derive(Clone, Copy)]
pub struct Fb(pub f64);

impl PartialEq for Fb {
    fn eq(&self, o: &Fb) -> bool {
        (self.0.is_nan() && o.0.is_nan()) || self.0.to_bits() == o.0.to_bits()
    }
}

impl std::fmt::Debug for Fb {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        std::fmt::Debug::fmt(&self.0, f)
    }
}
