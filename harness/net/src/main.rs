mod clock;
mod peers;
mod sessions;
mod settings;
mod time;
mod wire;
#[path = "/repo/node/src/actors/sessions_manager/beacons.rs"]
mod beacons;
#[path = "/repo/node/src/actors/codec.rs"]
mod codec;

fn main() {
    vmon::main(&[("C47", peers::peers), ("C48", sessions::sessions), ("C49", wire::framing), ("C50", wire::beacons), ("C51", time::time), ("C52", time::files), ("C53", settings::transports), ("C54", settings::config)])
}
