//! Checks of typed decoding and encoding of standard types, limits, constructors, the foreign
//! function, and independence of history.
extern crate alloc;

#[path = "../std_props/mod.rs"]
mod std_props;

#[global_allocator]
static A: mccore::alloc::Counting = mccore::alloc::Counting;

fn main() {
    mccore::explore::main(&std_props::props());
}
