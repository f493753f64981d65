#![allow(dead_code)]
#[path = "../../wit/src/core.rs"]
mod core;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c25")]
mod c25;
#[cfg(feature = "c26")]
mod c26;
#[cfg(feature = "c32")]
mod c32;
#[cfg(feature = "c33")]
mod c33;
#[cfg(feature = "c34")]
mod c34;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = crate::core::Ctx::new(a[2].parse().unwrap_or(1), a[3] == "thorough");
    match a[1].as_str() {
        #[cfg(feature = "c09")]
        "c09" => c09::run(&mut c),
        #[cfg(feature = "c14")]
        "c14" => c14::run(&mut c),
        #[cfg(feature = "c25")]
        "c25" => c25::run(&mut c),
        #[cfg(feature = "c26")]
        "c26" => c26::run(&mut c),
        #[cfg(feature = "c32")]
        "c32" => c32::run(&mut c),
        #[cfg(feature = "c33")]
        "c33" => c33::run(&mut c),
        #[cfg(feature = "c34")]
        "c34" => c34::run(&mut c),
        o => panic!("unknown property {o}"),
    }
    c.finish();
}
