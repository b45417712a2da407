use std::borrow::Borrow;
pub trait FloatCompare<T> {
    fn approx_lt(&self, other: T) -> bool;
    fn approx_lte(&self, other: T) -> bool;
    fn approx_gt(&self, other: T) -> bool;
    fn approx_gte(&self, other: T) -> bool;
    fn approx_eq(&self, other: T) -> bool;
}
/// modelled by the analysis as one tolerance relation (checked by C21)
impl<T: Borrow<f64>> FloatCompare<T> for f64 {
    fn approx_lt(&self, other: T) -> bool { *self < *other.borrow() }
    fn approx_lte(&self, other: T) -> bool { *self <= *other.borrow() }
    fn approx_gt(&self, other: T) -> bool { *self > *other.borrow() }
    fn approx_gte(&self, other: T) -> bool { *self >= *other.borrow() }
    fn approx_eq(&self, other: T) -> bool { *self == *other.borrow() }
}
