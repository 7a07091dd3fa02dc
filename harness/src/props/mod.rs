pub mod callbacks;
pub mod cli;
pub mod containers;
pub mod derive;
pub mod families;
pub mod geometry;
pub mod memory;
pub mod parsing;
pub mod plant;
pub mod rules;
pub mod stochastic;
pub mod svg;
pub mod symbols;
pub mod systems;
pub mod turtle;

use engine::Prop;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(symbols::props());
    v.extend(parsing::props());
    v.extend(derive::props());
    v.extend(stochastic::props());
    v.extend(systems::props());
    v.extend(families::props());
    v.extend(turtle::props());
    v.extend(svg::props());
    v.extend(geometry::props());
    v.extend(plant::props());
    v.extend(cli::props());
    v.extend(containers::props());
    v.extend(rules::props());
    v.extend(memory::props());
    v.extend(callbacks::props());
    v
}
