pub mod sym;
pub mod rust;
pub mod clib;
