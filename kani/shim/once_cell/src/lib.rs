//! `OnceCell` has the contract of the stand-in for `std::sync::OnceLock`.
pub mod sync {
    pub use vshim::sync::OnceLock as OnceCell;
}
