use mccore::explore::{Ctx, Engine, Prop};

mod bytes;
mod construct;
mod equal;
mod foreign;
mod history;
mod limits;
mod types;

pub fn props() -> Vec<Prop> {
    vec![
        bytes::c04(),
        limits::c05(),
        types::c09(),
        types::c10(),
        equal::c11(),
        construct::c20(),
        foreign::c22(),
        bytes::c23(),
        history::c24(),
    ]
}

pub fn eng(name: &'static str, check: mccore::explore::Check) -> Engine {
    Engine { name, check }
}

/// Runs over `n` items in chunks.
pub fn chunks<F: Fn(&mut mccore::explore::Worker, usize) + Sync>(ctx: &Ctx, n: usize, chunk: usize, f: F) {
    ctx.par(n.div_ceil(chunk), false, |w, i| {
        for k in i * chunk..(i * chunk + chunk).min(n) {
            f(w, k)
        }
    })
}
