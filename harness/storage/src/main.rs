mod concurrent;
mod sequential;

fn main() {
    vmon::main(&[("C14", concurrent::linearizable), ("C15", sequential::model)])
}
