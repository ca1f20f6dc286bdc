use crate::runner::{entry, Entry};
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod c30;
mod c31;
mod c32;
mod c33;
pub mod arm;
pub mod doc;

pub fn all() -> Vec<Entry> {
    vec![
        entry::<c01::P>(),
        entry::<c02::P>(),
        entry::<c03::P>(),
        entry::<c04::P>(),
        entry::<c05::P>(),
        entry::<c06::P>(),
        entry::<c07::P>(),
        entry::<c08::P>(),
        entry::<c09::P>(),
        entry::<c10::P>(),
        entry::<c11::P>(),
        entry::<c12::P>(),
        entry::<c13::P>(),
        entry::<c14::P>(),
        entry::<c15::P>(),
        entry::<c16::P>(),
        entry::<c17::P>(),
        entry::<c18::P>(),
        entry::<c19::P>(),
        entry::<c20::P>(),
        entry::<c21::P>(),
        entry::<c22::P>(),
        entry::<c23::P>(),
        entry::<c24::P>(),
        entry::<c25::P>(),
        entry::<c26::P>(),
        entry::<c27::P>(),
        entry::<c28::P>(),
        entry::<c29::P>(),
        entry::<c30::P>(),
        entry::<c31::P>(),
        entry::<c32::P>(),
        entry::<c33::P>(),
    ]
}
