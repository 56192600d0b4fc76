//! C22: the C function.
use mccore::bytesgen::{self, Cfg};
use mccore::explore::{Ctx, Prop};
use mccore::model::*;
use mctyped::checks::Out;

#[path = "/repo/difffuzz/src/lib.rs"]
mod difffuzz;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
const PAGE: usize = 4096;
const SPAN: usize = 4 << 20;

thread_local! {
    /// Readable and writable bytes between two pages that are neither.
    static AREA: *mut u8 = unsafe {
        let p = mmap(std::ptr::null_mut(), SPAN + 2 * PAGE, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        assert_eq!(mprotect(p, PAGE, 0), 0);
        assert_eq!(mprotect(p.add(PAGE + SPAN), PAGE, 0), 0);
        p.add(PAGE)
    };
}

fn call(p: *const u8, n: usize) -> usize {
    difffuzz::cbor_from_slice(p, n)
}

fn check(_: &str, b: &[u8]) -> Out {
    let m = Dec::run(false, Some(64), b);
    let want = m.is_err() as usize;
    let area = AREA.with(|a| *a);
    assert!(b.len() <= SPAN);
    // Ending right before an unreadable page, and starting right after one. What surrounds the
    // buffer would complete or spoil the data if it were read.
    let fill = |start: *mut u8, around: u8| unsafe {
        let lo = (start as usize - 64).max(area as usize) as *mut u8;
        let hi = (start as usize + b.len() + 64).min(area as usize + SPAN) as *mut u8;
        std::ptr::write_bytes(lo, around, hi as usize - lo as usize);
        std::ptr::copy_nonoverlapping(b.as_ptr(), start, b.len());
    };
    for around in [0x00, 0xff] {
        for start in [unsafe { area.add(SPAN - b.len()) }, area] {
            fill(start, around);
            let got = call(start, b.len());
            let after = unsafe { std::slice::from_raw_parts(start, b.len()) };
            if after != b {
                return Err("the buffer was changed".into());
            }
            if got != want {
                return Err(format!("returns {got} where lenient decoding is {:?}", m.map(|m| show(&m)).map_err(errs_names)));
            }
        }
    }
    // And as the lenient typed decoder has it.
    if oasis_cbor::from_slice_non_strict::<oasis_cbor::Value>(b).is_err() as usize != want {
        return Err("lenient typed decoding disagrees".into());
    }
    Ok(if want == 0 { "decodable" } else { "not decodable" })
}

pub fn c22() -> Prop {
    Prop { id: "C22", engines: bytesgen::engines(check), explore }
}

fn explore(ctx: &Ctx, p: &Prop) {
    ctx.bound("every buffer placed right before and right after an inaccessible page, between bytes 00 and between bytes ff");
    let cfg = if ctx.thorough {
        Cfg { full: 3, pruned: 0, alpha: 7, utf8_full: true, arg8: 6, arg4: 16, arg2_full: true, mutate_nodes: 5, ctx_depth: 4, big: true, places: 2 }
    } else {
        Cfg { full: 3, pruned: 0, alpha: 5, utf8_full: true, arg8: 5, arg4: 16, arg2_full: true, mutate_nodes: 4, ctx_depth: 3, big: false, places: 1 }
    };
    bytesgen::explore(ctx, &p.engines, cfg);
}
