//! Checks of derived structs.
#[global_allocator]
static A: mccore::alloc::Counting = mccore::alloc::Counting;

fn main() {
    mctyped::derived::set(mcstructs::types::types());
    mccore::explore::main(&mctyped::derived::struct_props());
}
