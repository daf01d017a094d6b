pub mod common;
pub mod ascent;
pub mod c01;
pub mod carry;
pub mod events;
pub mod files;
pub mod marathon;
pub mod output;
pub mod relations;
pub mod state;
pub mod tables;

use crate::runner::Property;

pub fn all() -> Vec<Property> {
    let mut v = vec![c01::property()];
    v.extend(events::properties());
    v.extend(carry::properties());
    v.extend(state::properties());
    v.extend(tables::properties());
    v.extend(output::properties());
    v.extend(files::properties());
    v.extend(relations::properties());
    v
}
