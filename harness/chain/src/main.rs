mod codec;
mod forms;
mod drpool;
mod gen;
mod mempool;
mod staking;
mod superblock;
mod utxo;
mod wire;

fn main() {
    vmon::main(&[("C18", codec::roundtrip), ("C19", codec::hostile), ("C20", forms::storage), ("C21", forms::text), ("C22", utxo::ledger), ("C23", mempool::histories), ("C24", drpool::lifecycle), ("C25", drpool::settlement), ("C26", staking::ledger), ("C27", superblock::voting), ("C28", superblock::inclusion)])
}
