//! C27, C28: the parameter-code macro (/repo/codegen), driven as users drive it: enums with the
//! attribute are compiled in batches by rustc, and the resulting program reports what it got.
mod batch;
mod c27;
mod c28;

#[global_allocator]
static A: mccore::alloc::Watch = mccore::alloc::Watch;

fn main() {
    mccore::main_with(&[("C27", c27::run), ("C28", c28::run)]);
}
