#![allow(dead_code)]
mod core;
#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c23")]
mod c23;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c26")]
mod c26;
#[cfg(feature = "c27")]
mod c27;
#[cfg(feature = "c28")]
mod c28;
#[cfg(feature = "c29")]
mod c29;
#[cfg(feature = "c30")]
mod c30;
#[cfg(feature = "c31")]
mod c31;
#[cfg(feature = "c32")]
mod c32;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut c = crate::core::Ctx::new(a[2].parse().unwrap_or(1), a[3] == "thorough");
    match a[1].as_str() {
        #[cfg(feature = "c01")]
        "c01" => c01::run(&mut c),
        #[cfg(feature = "c02")]
        "c02" => c02::run(&mut c),
        #[cfg(feature = "c03")]
        "c03" => c03::run(&mut c),
        #[cfg(feature = "c04")]
        "c04" => c04::run(&mut c),
        #[cfg(feature = "c05")]
        "c05" => c05::run(&mut c),
        #[cfg(feature = "c06")]
        "c06" => c06::run(&mut c),
        #[cfg(feature = "c07")]
        "c07" => c07::run(&mut c),
        #[cfg(feature = "c08")]
        "c08" => c08::run(&mut c),
        #[cfg(feature = "c09")]
        "c09" => c09::run(&mut c),
        #[cfg(feature = "c10")]
        "c10" => c10::run(&mut c),
        #[cfg(feature = "c11")]
        "c11" => c11::run(&mut c),
        #[cfg(feature = "c12")]
        "c12" => c12::run(&mut c),
        #[cfg(feature = "c13")]
        "c13" => c13::run(&mut c),
        #[cfg(feature = "c14")]
        "c14" => c14::run(&mut c),
        #[cfg(feature = "c15")]
        "c15" => c15::run(&mut c),
        #[cfg(feature = "c16")]
        "c16" => c16::run(&mut c),
        #[cfg(feature = "c17")]
        "c17" => c17::run(&mut c),
        #[cfg(feature = "c18")]
        "c18" => c18::run(&mut c),
        #[cfg(feature = "c19")]
        "c19" => c19::run(&mut c),
        #[cfg(feature = "c20")]
        "c20" => c20::run(&mut c),
        #[cfg(feature = "c21")]
        "c21" => c21::run(&mut c),
        #[cfg(feature = "c22")]
        "c22" => c22::run(&mut c),
        #[cfg(feature = "c23")]
        "c23" => c23::run(&mut c),
        #[cfg(feature = "c24")]
        "c24" => c24::run(&mut c),
        #[cfg(feature = "c26")]
        "c26" => c26::run(&mut c),
        #[cfg(feature = "c27")]
        "c27" => c27::run(&mut c),
        #[cfg(feature = "c28")]
        "c28" => c28::run(&mut c),
        #[cfg(feature = "c29")]
        "c29" => c29::run(&mut c),
        #[cfg(feature = "c30")]
        "c30" => c30::run(&mut c),
        #[cfg(feature = "c31")]
        "c31" => c31::run(&mut c),
        #[cfg(feature = "c32")]
        "c32" => c32::run(&mut c),
        o => panic!("unknown property {o}"),
    }
    c.finish();
}
