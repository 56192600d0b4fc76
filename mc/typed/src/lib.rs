pub mod checks;
pub mod derived;
pub mod dom;
pub mod own;
pub mod sample;
pub mod schema;
pub mod std_types;
pub mod subj;
