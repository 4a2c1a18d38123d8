pub mod prelude { pub use vstd_macros::verus; }
