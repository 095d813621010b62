use crate::run::*;
pub mod api;
pub mod err;
pub mod layout;
pub mod lit;
pub mod neg;
pub mod robust;
pub mod real;
pub mod rows;
pub mod rules;
pub mod same;
pub mod tree;
pub type F = fn(&Cfg, &mut Obs) -> Report;
pub fn all() -> Vec<(&'static str, F)> {
    let mut v: Vec<(&'static str, F)> = vec![];
    v.extend(tree::list());
    v.extend(lit::list());
    v.extend(layout::list());
    v.extend(neg::list());
    v.extend(err::list());
    v.extend(robust::list());
    v.extend(rules::list());
    v.extend(api::list());
    v.extend(real::list());
    v.extend(same::list());
    v
}
