use crate::{Check, Tier};

pub mod alike;
pub mod cli;
pub mod elf;
pub mod flat;
pub mod formats;
pub mod graph;
pub mod names;
pub mod objects;
pub mod options;
pub mod robust;
pub mod scale;
pub mod sums;
pub mod trees;
pub mod wasm;
pub mod web;

pub fn ids() -> Vec<&'static str> {
    vec!["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24"]
}

pub fn get(id: &str, tier: Tier) -> Check {
    match id {
        "C01" => wasm::c01(tier),
        "C02" => wasm::c02(tier),
        "C03" => wasm::c03(tier),
        "C04" => wasm::c04(tier),
        "C05" => robust::c05(tier),
        "C06" => graph::c06(tier),
        "C07" => graph::c07(tier),
        "C08" => flat::c08(tier),
        "C09" => trees::c09(tier),
        "C13" => trees::c13(tier),
        "C11" => sums::c11(tier),
        "C12" => sums::c12(tier),
        "C10" => flat::c10(tier),
        "C14" => formats::c14(tier),
        "C15" => formats::c15(tier),
        "C16" => formats::c16(tier),
        "C17" => options::c17(tier),
        "C18" => cli::c18(tier),
        "C19" => cli::c19(tier),
        "C20" => elf::c20(tier),
        "C21" => cli::c21(tier),
        "C22" => names::c22(tier),
        "C24" => scale::c24(tier),
        "C23" => web::c23(tier),
        _ => {
            eprintln!("no such check: {}", id);
            std::process::exit(2)
        }
    }
}
