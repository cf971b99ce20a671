mod keys;
mod merkle;
mod misc;
mod related;

fn main() {
    vmon::main(&[
        ("C01", merkle::roots),
        ("C02", merkle::proofs),
        ("C03", keys::bip32),
        ("C04", keys::slip32),
        ("C05", misc::aes),
        ("C06", misc::kdf),
        ("C07", misc::ecdsa),
        ("C08", misc::mnemonic),
        ("C09", misc::fresh),
    ])
}
