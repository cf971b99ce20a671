mod fees;
#[path = "../../chain/src/gen.rs"]
#[allow(dead_code)]
mod gen;
mod select;
mod tapi;
mod time;

fn main() {
    vmon::main(&[("C55", select::builders), ("C56", time::epochs), ("C57", tapi::signals), ("C58", fees::estimates)])
}
