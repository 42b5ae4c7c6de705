use crate::eng::Ty;
use crate::report::Run;
pub mod conv;
pub mod either;
pub mod fmt;
pub mod kw;
pub mod lit;
pub mod parse;
pub mod rest;
pub mod scale;
pub mod seq;
pub mod src;
pub mod work;

pub fn run(run: &Run, types: &[Ty], mods: &[crate::kwops::KwMod]) -> bool {
    match run.o.prop.as_str() {
        "C01" => parse::c01(run, types),
        "C02" => parse::c02(run, types),
        "C03" => parse::c03(run, types),
        "C04" => parse::c04(run, types),
        "C05" => parse::c05(run, types),
        "C06" => work::c06(run, types),
        "C08" => lit::c08(run, types),
        "C09" => lit::c09(run, types),
        "C10" => lit::c10(run, types),
        "C11" => kw::c11(run, mods),
        "C07" => parse::c07(run, types),
        "C12" => fmt::c12(run, types),
        "C13" => fmt::c13(run, types),
        "C14" => fmt::c14(run, types),
        "C15" => fmt::c15(run, types),
        "C16" => fmt::c16(run, types),
        "C17" => src::c17(run, types),
        "C18" => src::c18(run, types),
        "C19" => src::c19(run, types),
        "C20" => src::c20(run, types),
        "C21" => seq::c21(run),
        "C22" => conv::c22(run),
        "C23" => either::c23(run),
        "C24" => parse::c24(run, types),
        "C25" => src::c25(run, types),
        "C26" => src::c26(run, types),
        _ => return false,
    }
    true
}
