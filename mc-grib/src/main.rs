//! C01-C24: the library (/repo/src), driven through its public interface.
#![allow(clippy::type_complexity)]
#![allow(dead_code)]
pub mod dec;
pub mod enc;
pub mod grids;
pub mod msg;
pub mod obs;
pub mod rdr;
pub mod samples;
#[cfg(any(feature = "c06", feature = "c32", feature = "c39"))]
pub mod live;

#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c23")]
mod c23;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c32")]
mod c32;
#[cfg(feature = "c33")]
mod c33;
#[cfg(feature = "c34")]
mod c34;
#[cfg(feature = "c35")]
mod c35;
#[cfg(feature = "c36")]
mod c36;
#[cfg(feature = "c37")]
mod c37;
#[cfg(feature = "c39")]
mod c39;

#[global_allocator]
static A: mccore::alloc::Watch = mccore::alloc::Watch;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--alone") {
        obs::serve_alone();
    }
    #[cfg(feature = "c37")]
    if std::env::args().nth(1).as_deref() == Some("--serve") {
        c37::serve();
    }
    #[cfg(feature = "c39")]
    if std::env::args().nth(1).as_deref() == Some("--threads") {
        c39::serve();
    }
    mccore::main_with(&[
        #[cfg(feature = "c01")]
        ("C01", c01::run),
        #[cfg(feature = "c02")]
        ("C02", c02::run),
        #[cfg(feature = "c03")]
        ("C03", c03::run),
        #[cfg(feature = "c04")]
        ("C04", c04::run),
        #[cfg(feature = "c05")]
        ("C05", c05::run),
        #[cfg(feature = "c06")]
        ("C06", c06::run),
        #[cfg(feature = "c07")]
        ("C07", c07::run),
        #[cfg(feature = "c08")]
        ("C08", c08::run),
        #[cfg(feature = "c09")]
        ("C09", c09::run),
        #[cfg(feature = "c10")]
        ("C10", c10::run),
        #[cfg(feature = "c11")]
        ("C11", c11::run),
        #[cfg(feature = "c12")]
        ("C12", c12::run),
        #[cfg(feature = "c13")]
        ("C13", c13::run),
        #[cfg(feature = "c14")]
        ("C14", c14::run),
        #[cfg(feature = "c15")]
        ("C15", c15::run),
        #[cfg(feature = "c16")]
        ("C16", c16::run),
        #[cfg(feature = "c17")]
        ("C17", c17::run),
        #[cfg(feature = "c18")]
        ("C18", c18::run),
        #[cfg(feature = "c19")]
        ("C19", c19::run),
        #[cfg(feature = "c20")]
        ("C20", c20::run),
        #[cfg(feature = "c21")]
        ("C21", c21::run),
        #[cfg(feature = "c22")]
        ("C22", c22::run),
        #[cfg(feature = "c23")]
        ("C23", c23::run),
        #[cfg(feature = "c24")]
        ("C24", c24::run),
        #[cfg(feature = "c32")]
        ("C32", c32::run),
        #[cfg(feature = "c33")]
        ("C33", c33::run),
        #[cfg(feature = "c34")]
        ("C34", c34::run),
        #[cfg(feature = "c35")]
        ("C35", c35::run),
        #[cfg(feature = "c36")]
        ("C36", c36::run),
        #[cfg(feature = "c37")]
        ("C37", c37::run),
        #[cfg(feature = "c38")]
        ("C38", c37::run_wasm),
        #[cfg(feature = "c39")]
        ("C39", c39::run),
    ]);
}
