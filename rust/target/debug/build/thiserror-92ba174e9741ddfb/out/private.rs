#[doc(hidden)]
pub mod __private21 {
    #[doc(hidden)]
    pub use crate::private::*;
}
