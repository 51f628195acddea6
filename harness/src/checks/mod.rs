mod api;
mod doc;
mod enc;
mod exp;
mod fuzz;
mod idf;
mod make;
mod num;
mod parse;
mod part;
use crate::engine::Prop;

pub fn all() -> &'static [Prop] {
    static ALL: &[Prop] = &[
        fuzz::P01, doc::P02, doc::P03, enc::P04, enc::P05, idf::P06, enc::P07, num::P08, num::P09, exp::P14, exp::P15,
        exp::P16, exp::P17, exp::P22, enc::P23, num::P24,
        parse::P10, parse::P11, parse::P12, parse::P13, api::P18, api::P19, make::P20, make::P21, part::P25,
    ];
    ALL
}
