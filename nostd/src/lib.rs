//! Witness for S02: the library as a dependency of a `no_std` program without an allocator.
#![no_std]
pub use mlx9064x::{Mlx90640Driver, Mlx90641Driver};
