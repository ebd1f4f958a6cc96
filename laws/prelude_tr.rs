include!("prelude.rs");
pub use cglinalg_transform::*;
/// The four value/reference forms of a product.
#[macro_export]
macro_rules! forms { ($raw:expr, $f:expr, $x:expr, $e:expr) => {{ let e = $e; same($raw($f * $x), e); same($raw($f * &$x), e); same($raw(&$f * $x), e); same($raw(&$f * &$x), e); }} }
