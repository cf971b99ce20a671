mod block;
mod commits;
mod elig;
mod sigs;
mod tally;
mod tx;
mod world;

fn main() {
    vmon::main(&[("C29", elig::staking), ("C30", tx::accepted), ("C31", block::blocks), ("C32", tally::agreed), ("C33", sigs::signatures), ("C34", sigs::rewards), ("C35", sigs::candidates), ("C36", commits::admitted), ("C37", elig::reputed), ("C38", sigs::headers)])
}
