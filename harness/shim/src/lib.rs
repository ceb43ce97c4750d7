//! The real core plus the `Extractor` trait that `plugins/interval/src/plugin.rs` still imports.
pub use plotline::*;

pub mod property {
    pub use plotline::property::*;

    /// Extracts all the occurrences of a target type from a source.
    pub trait Extractor<Src> {
        type Target;

        fn all(&self, source: &Src) -> Vec<Self::Target>;
    }
}
