use crate::engine::Prop;

mod ed;
mod grow;
mod meta;
mod mob;
mod order;
mod po;
mod pure;
mod wr;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(po::all());
    v.extend(wr::all());
    v.extend(mob::all());
    v.extend(ed::all());
    v.extend(grow::all());
    v.extend(meta::all());
    v.extend(pure::all());
    v.extend(order::all());
    v.sort_by_key(|p| p.id);
    v
}
