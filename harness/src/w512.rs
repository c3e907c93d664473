width! { U512, I512, 8, "u512", "i512" }

#[cfg(feature = "p01")]
#[path = "props/p01.rs"]
pub mod p01;
#[cfg(feature = "p02")]
#[path = "props/p02.rs"]
pub mod p02;
#[cfg(feature = "p03")]
#[path = "props/p03.rs"]
pub mod p03;
#[cfg(feature = "p04")]
#[path = "props/p04.rs"]
pub mod p04;
#[cfg(feature = "p05")]
#[path = "props/p05.rs"]
pub mod p05;
#[cfg(feature = "p06")]
#[path = "props/p06.rs"]
pub mod p06;
#[cfg(feature = "p07")]
#[path = "props/p07.rs"]
pub mod p07;
#[cfg(feature = "p08")]
#[path = "props/p08.rs"]
pub mod p08;
#[cfg(feature = "p09")]
#[path = "props/p09.rs"]
pub mod p09;
#[cfg(feature = "p10")]
#[path = "props/p10.rs"]
pub mod p10;
#[cfg(feature = "p11")]
#[path = "props/p11.rs"]
pub mod p11;
#[cfg(feature = "p12")]
#[path = "props/p12.rs"]
pub mod p12;
#[cfg(feature = "p13")]
#[path = "props/p13.rs"]
pub mod p13;
#[cfg(feature = "p14")]
#[path = "props/p14.rs"]
pub mod p14;
#[cfg(feature = "p15")]
#[path = "props/p15.rs"]
pub mod p15;
#[cfg(feature = "p16")]
#[path = "props/p16.rs"]
pub mod p16;
#[cfg(feature = "p17")]
#[path = "props/p17.rs"]
pub mod p17;
#[cfg(feature = "p18")]
#[path = "props/p18.rs"]
pub mod p18;
#[cfg(feature = "p19")]
#[path = "props/p19.rs"]
pub mod p19;
#[cfg(feature = "p20")]
#[path = "props/p20.rs"]
pub mod p20;
#[cfg(feature = "p21")]
#[path = "props/p21.rs"]
pub mod p21;
#[cfg(feature = "p22")]
#[path = "props/p22.rs"]
pub mod p22;
#[cfg(feature = "p23")]
#[path = "props/p23.rs"]
pub mod p23;

pub fn suites(t: crate::space::Tier, out: &mut Vec<crate::engine::Suite>) {
    #[cfg(feature = "p01")]
    if crate::want("P01") {
        p01::suites(t, out);
    }
    #[cfg(feature = "p02")]
    if crate::want("P02") {
        p02::suites(t, out);
    }
    #[cfg(feature = "p03")]
    if crate::want("P03") {
        p03::suites(t, out);
    }
    #[cfg(feature = "p04")]
    if crate::want("P04") {
        p04::suites(t, out);
    }
    #[cfg(feature = "p05")]
    if crate::want("P05") {
        p05::suites(t, out);
    }
    #[cfg(feature = "p06")]
    if crate::want("P06") {
        p06::suites(t, out);
    }
    #[cfg(feature = "p07")]
    if crate::want("P07") {
        p07::suites(t, out);
    }
    #[cfg(feature = "p08")]
    if crate::want("P08") {
        p08::suites(t, out);
    }
    #[cfg(feature = "p09")]
    if crate::want("P09") {
        p09::suites(t, out);
    }
    #[cfg(feature = "p10")]
    if crate::want("P10") {
        p10::suites(t, out);
    }
    #[cfg(feature = "p11")]
    if crate::want("P11") {
        p11::suites(t, out);
    }
    #[cfg(feature = "p12")]
    if crate::want("P12") {
        p12::suites(t, out);
    }
    #[cfg(feature = "p13")]
    if crate::want("P13") {
        p13::suites(t, out);
    }
    #[cfg(feature = "p14")]
    if crate::want("P14") {
        p14::suites(t, out);
    }
    #[cfg(feature = "p15")]
    if crate::want("P15") {
        p15::suites(t, out);
    }
    #[cfg(feature = "p16")]
    if crate::want("P16") {
        p16::suites(t, out);
    }
    #[cfg(feature = "p17")]
    if crate::want("P17") {
        p17::suites(t, out);
    }
    #[cfg(feature = "p18")]
    if crate::want("P18") {
        p18::suites(t, out);
    }
    #[cfg(feature = "p19")]
    if crate::want("P19") {
        p19::suites(t, out);
    }
    #[cfg(feature = "p20")]
    if crate::want("P20") {
        p20::suites(t, out);
    }
    #[cfg(feature = "p21")]
    if crate::want("P21") {
        p21::suites(t, out);
    }
    #[cfg(feature = "p22")]
    if crate::want("P22") {
        p22::suites(t, out);
    }
    #[cfg(feature = "p23")]
    if crate::want("P23") {
        p23::suites(t, out);
    }
    let _ = (t, out);
}
