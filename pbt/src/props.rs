//! The properties, each as a set of generated checks.
use crate::engine::*;
mod io; mod hists; mod selects; mod texts; mod bytes; mod tables; mod meta; mod attribs; mod lint;
pub fn all(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => io::c01(), "C02" => io::c02(), "C03" => io::c03(), "C05" => io::c05(), "C04" => bytes::c04(), "C18" => meta::c18(), "C19" => attribs::c19(), "C21" => lint::c21(), "C17" => tables::c17(),
        "C06" => hists::c06(), "C07" => hists::c07(), "C11" => hists::c11(), "C12" => hists::c12(), "C14" => hists::c14(), "C15" => hists::c15(), "C16" => hists::c16(), "C20" => hists::c20(), "C22" => hists::c22(),
        "C13" => texts::c13(), "C08" => selects::c08(), "C09" => selects::c09(), "C10" => selects::c10(),
        _ => return None
    })
}
