use crate::pbt::Property;
pub mod asm;
mod basic;
mod io;
mod life;
mod mach;
pub mod obj;
mod prog;
mod runs;
mod step;
pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(basic::props());
    v.extend(asm::props());
    v.extend(obj::props());
    v.extend(step::props());
    v.extend(prog::props());
    v.extend(mach::props());
    v.extend(runs::props());
    v.extend(life::props());
    v.extend(io::props());
    v.sort_by_key(|p| p.id);
    v
}
