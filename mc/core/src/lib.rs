pub mod alloc;
pub mod bytesgen;
pub mod explore;
pub mod model;
pub mod valgen;
