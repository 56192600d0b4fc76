//! Checks of the serde layer.
mod any;
mod props;
mod serde_sem;
mod serde_subj;
mod serde_types;

#[global_allocator]
static A: mccore::alloc::Counting = mccore::alloc::Counting;

fn main() {
    mccore::explore::main(&props::props());
}
