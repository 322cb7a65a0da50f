//! The spaces and oracles of each property.

use crate::engine::*;

mod gen;
mod vocab;
mod markup;
mod limits;
mod files;
mod progs;
mod text;
mod select;
mod edit;
mod compose;
mod faults;
mod state;
mod total;
mod user;
mod nested;
mod writers;
mod threads;
mod cost;

pub use threads::cold;

pub fn families(prop: &str, tier: Tier) -> Vec<Family> {
    match prop {
        "C01" => markup::c01(tier),
        "C02" => markup::c02(tier),
        "C03" => markup::c03(tier),
        "C04" => markup::c04(tier),
        "C05" => markup::c05(tier),
        "C06" => markup::c06(tier),
        "C07" => limits::c07(tier),
        "C08" => files::c08(tier),
        "C09" => text::c09(tier),
        "C10" => text::c10(tier),
        "C11" => select::c11(tier),
        "C12" => select::c12(tier),
        "C13" => edit::c13(tier),
        "C14" => edit::c14(tier),
        "C15" => edit::c15(tier),
        "C16" => compose::c16(tier),
        "C17" => compose::c17(tier),
        "C18" => faults::c18(tier),
        "C19" => faults::c19(tier),
        "C20" => state::c20(tier),
        "C21" => state::c21(tier),
        "C22" => state::c22(tier),
        "C23" => total::c23(tier),
        "C24" => total::c24(tier),
        "C25" => nested::c25(tier),
        "C26" => threads::c26(tier),
        "C27" => writers::c27(tier),
        "C28" => cost::c28(tier),
        _ => panic!("unknown property {prop}"),
    }
}
