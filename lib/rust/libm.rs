//! Stand-in for the crate libm: the same functions from the C library.
pub fn pow(x: f64, y: f64) -> f64 { x.powf(y) }
pub fn sqrt(x: f64) -> f64 { x.sqrt() }
pub fn fabs(x: f64) -> f64 { x.abs() }
pub fn floor(x: f64) -> f64 { x.floor() }
pub fn ceil(x: f64) -> f64 { x.ceil() }
pub fn round(x: f64) -> f64 { x.round() }
pub fn trunc(x: f64) -> f64 { x.trunc() }
pub fn fmod(x: f64, y: f64) -> f64 { x % y }
pub fn fmax(x: f64, y: f64) -> f64 { x.max(y) }
pub fn fmin(x: f64, y: f64) -> f64 { x.min(y) }
pub fn copysign(x: f64, y: f64) -> f64 { x.copysign(y) }
pub fn powf(x: f32, y: f32) -> f32 { x.powf(y) }
pub fn sqrtf(x: f32) -> f32 { x.sqrt() }
pub fn fabsf(x: f32) -> f32 { x.abs() }
