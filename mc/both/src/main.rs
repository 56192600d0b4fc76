//! Checks that range over standard and derived types alike.
#[global_allocator]
static A: mccore::alloc::Counting = mccore::alloc::Counting;

fn main() {
    let mut list = mctyped::std_types::types();
    for (p, l) in [("s.", mcstructs::types::types()), ("e.", mcenums::types::types())] {
        for mut o in l {
            o.name = format!("{p}{}", o.name);
            list.push(o);
        }
    }
    mctyped::derived::set(list);
    mccore::explore::main(&mctyped::derived::both_props());
}
