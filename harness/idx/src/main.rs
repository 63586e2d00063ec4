//! Checks of the indexers.
mod common;
mod light;
mod v1;
mod v2;

fn main() {
    let mut props = vec![];
    props.extend(light::props());
    props.extend(v1::props());
    props.extend(v2::props());
    engine::main(&props)
}
