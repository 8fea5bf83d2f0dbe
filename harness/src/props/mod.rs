//! One module per property.
pub mod common;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
pub mod p06;
mod p07;
mod p08;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p19;
mod p20;
mod p21;
mod p22;
mod p23;
mod p24;
mod cli;
#[cfg(feature = "ffi")]
mod ffi;
#[cfg(feature = "ffi")]
mod p17;
#[cfg(feature = "ffi")]
mod p18;

use crate::engine::Ctx;

pub fn run(ctx: &'static Ctx) -> bool {
    match ctx.id.as_str() {
        "P01" => p01::run(ctx),
        "P02" => p02::run(ctx),
        "P03" => p03::run(ctx),
        "P04" => p04::run(ctx),
        "P05" => p05::run(ctx),
        "P06" => p06::run(ctx),
        "P07" => p07::run(ctx),
        "P08" => p08::run(ctx),
        "P09" => p09::run(ctx),
        "P10" => p10::run(ctx),
        "P11" => p11::run(ctx),
        "P12" => p12::run(ctx),
        "P13" => p13::run(ctx),
        "P14" => p14::run(ctx),
        "P15" => p15::run(ctx),
        "P16" => p16::run(ctx),
        "P19" => p19::run(ctx),
        "P20" => p20::run(ctx),
        "P21" => p21::run(ctx),
        "P22" => p22::run(ctx),
        "P23" => p23::run(ctx),
        "P24" => p24::run(ctx),
        #[cfg(feature = "ffi")]
        "P17" => p17::run(ctx),
        #[cfg(feature = "ffi")]
        "P18" => p18::run(ctx),
        _ => return false,
    }
    true
}

/// Helper sub-processes (argv[1] starts with '@').
pub fn helper(args: &[String]) -> Option<i32> {
    match args[0].as_str() {
        "@p22" => Some(p22::helper(args)),
        "@p23" => Some(p23::helper(args)),
        "@p12" => Some(p12::helper(args)),
        #[cfg(feature = "ffi")]
        "@p22c" => Some(p22::helper_c(args)),
        #[cfg(feature = "ffi")]
        "@p18" => Some(p18::helper(args)),
        _ => None,
    }
}
