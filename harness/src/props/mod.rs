use crate::engine::*;
pub mod parts;
pub mod runs;
pub mod runs2;
pub mod refs;
pub mod xml;
pub mod log;
pub mod extra;
pub mod simul;
pub mod silent;

pub fn all() -> Vec<Box<dyn AnyProp>> {
    let mut v: Vec<Box<dyn AnyProp>> = vec![];
    v.extend(runs::props());
    v.extend(parts::props());
    v.extend(runs2::props());
    v.extend(xml::props());
    v.extend(log::props());
    v.extend(refs::props());
    v.extend(extra::props());
    v.extend(simul::props());
    v.extend(silent::props());
    v
}
