mod agg;
mod clock;
mod enc;
mod http;
mod interp;
mod ops;
mod tally;
mod val;
mod verdict;

fn main() {
    vmon::main(&[("C39", ops::scripts), ("C40", ops::operators), ("C41", tally::aggregation), ("C42", verdict::verdict), ("C43", enc::wire), ("C44", http::retrieval), ("C45", http::paranoid), ("C46", http::locally)])
}
