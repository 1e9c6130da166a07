use crate::engine::Spaces;
use crate::Tier;

mod sets;
mod mat;
mod dense;
mod normal;
mod sparse;
mod numeric;
mod formal;
mod simplicial;
mod graphs;
mod cubical;
mod analysis;
mod geometry;
mod perms;
mod numbers;
mod random;

pub fn spaces(prop: &str, t: Tier) -> Option<Spaces> {
    Some(match prop {
        "C01" => sets::c01(t),
        "C02" => sets::c02(t),
        "C03" => numbers::c03(t),
        "C04" => numbers::c04(t),
        "C06" => perms::c06(t),
        "C07" => perms::c07(t),
        "C05" => formal::c05(t),
        "C08" => dense::c08(t),
        "C09" => dense::c09(t),
        "C10" => dense::c10(t),
        "C11" => normal::c11(t),
        "C12" => normal::c12(t),
        "C13" => sparse::c13(t),
        "C28" => sparse::c28(t),
        "C14" => numeric::c14(t),
        "C15" => numeric::c15(t),
        "C16" => numeric::c16(t),
        "C17" => simplicial::c17(t),
        "C18" => simplicial::c18(t),
        "C19" => graphs::c19(t),
        "C20" => graphs::c20(t),
        "C21" => graphs::c21(t),
        "C22" => cubical::c22(t),
        "C23" => cubical::c23(t),
        "C24" => cubical::c24(t),
        "C25" => geometry::c25(t),
        "C26" => analysis::c26(t),
        "C27" => analysis::c27(t),
        "C29" => random::c29(t),
        _ => return None,
    })
}
