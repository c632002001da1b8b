//! Values given to free symbols in parameter expressions.
pub fn eval(_e: &str) -> Option<f64> { None }
