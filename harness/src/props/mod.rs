mod answers;
mod common;
mod editor;
mod faults;
mod front;
mod outside;
mod store;
mod values;

use crate::runner::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(values::all());
    v.extend(front::all());
    v.extend(editor::all());
    v.extend(store::all());
    v.extend(faults::all());
    v.extend(outside::all());
    v.extend(answers::all());
    v
}
