//! Checks of derived enums.
#[global_allocator]
static A: mccore::alloc::Counting = mccore::alloc::Counting;

fn main() {
    mctyped::derived::set(mcenums::types::types());
    mccore::explore::main(&mctyped::derived::enum_props());
}
