//! `mc check <ID>`   decides one property on the code in /repo (quick or thorough, by $VERIF_TIER or --tier)
//! `mc replay <file>` re-runs one recorded violation
//! `mc list <ID>`    lists its cases
mod frame;
mod ring;
mod alloc;
mod classify;
mod rt;
mod crud;
mod regular;
mod async_;
mod reports;
mod features;
#[cfg(not(feature = "plain"))] mod selftest;

use frame::*;

pub fn property(id: &str, tier: Tier) -> Option<Property> {
    match id {
        "C01" => Some(ring::c01(tier)),
        "C02" => Some(ring::c02(tier)),
        "C03" => Some(ring::c03(tier)),
        "C05" => Some(alloc::c05(tier)),
        "C06" => Some(alloc::c06(tier)),
        "C07" => Some(alloc::c07(tier)),
        "C08" => Some(alloc::c08(tier)),
        "C09" => Some(classify::c09(tier)),
        "C10" => Some(classify::c10(tier)),
        "C11" => Some(classify::c11(tier)),
        "C12" => Some(crud::c12(tier)),
        "C13" => Some(crud::c13(tier)),
        "C14" => Some(crud::c14(tier)),
        "C15" => Some(crud::c15(tier)),
        "C16" => Some(regular::c16(tier)),
        "C17" => Some(regular::c17(tier)),
        "C18" => Some(async_::c18(tier)),
        "C19" => Some(async_::c19(tier)),
        "C20" => Some(crud::c20(tier)),
        "C04" => Some(ring::c04(tier)),
        "C21" => Some(reports::c21(tier)),
        "C23" => Some(features::c23(tier)),
        "C22" => Some(reports::c22(tier)),
        _ => None,
    }
}

fn main() {
    #[cfg(not(feature = "plain"))] if std::env::args().nth(1).as_deref() == Some("selftest") { std::process::exit(selftest::run()) }
    frame::main(property)
}
