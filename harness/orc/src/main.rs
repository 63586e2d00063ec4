//! Checks of the oracles: the tweak server client, the filter subscriber and the tweak subscriber.
mod client;
mod filters;
mod mock;
mod tweaks;

fn main() {
    let mut props = vec![];
    props.extend(client::props());
    props.extend(filters::props());
    props.extend(tweaks::props());
    engine::main(&props)
}
