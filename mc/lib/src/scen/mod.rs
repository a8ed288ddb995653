//! The scenarios of each check.
use crate::runner::Scn;
mod args;
mod cli;
mod conf;
mod core;
mod dumps;
mod io;
mod live;
pub mod ops;
mod smoke;
mod special;
mod urls;
pub fn of(prop: &str, tier: &str) -> Vec<Scn> {
    let t = tier == "thorough";
    let mut v = match prop {
        "smoke" => smoke::all(),
        "C01" => core::c01(t),
        "C02" => core::c02(t),
        "C03" => core::c03(t),
        "C04" => core::c04(t),
        "C05" => core::c05(t),
        "C06" => core::c06(t),
        "C07" => core::c07(t),
        "C08" => core::c08(t),
        "C09" => core::c09(t),
        "C10" => core::c10(t),
        "C11" => core::c11(t),
        "C12" => core::c12(t),
        "C13" => core::c13(t),
        "C14" => core::c14(t),
        "C15" => core::c15(t),
        "C16" => core::c16(t),
        "C17" => core::c17(t),
        "C18" => dumps::c18(t),
        "C19" => dumps::c19(t),
        "C20" => dumps::c20(t),
        "C21" => io::c21(t),
        "C22" => io::c22(t),
        "C23" => conf::c23(t),
        "C24" => urls::c24(t),
        "C25" => urls::c25(t),
        "C26" => args::c26(t),
        "C27" => live::c27(t),
        "C28" => live::c28(t),
        "C29" => cli::c29(t),
        "C30" => cli::c30(t),
        _ => vec![],
    };
    v.extend(core::delayed(prop, t));
    v
}
