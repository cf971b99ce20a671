mod chaos;
mod clock;
mod crash;
mod hostile;
mod ledger;
mod lives;
mod life;
mod logs;
mod play;
mod props;
mod report;
mod rnd;
mod rpc;
mod scene;
mod world;

fn main() {
    logs::install();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("demo") => return scene::demo(),
        // one case: try NAME SEED
        Some("try") => {
            let s: u64 = a[3].parse().expect("seed");
            let f = match a[2].as_str() {
                "agreement" => chaos::agreement,
                "havoc" => chaos::havoc,
                "calm" => lives::calm,
                "cuts" => lives::cuts,
                "edge" => lives::edge,
                "crash" => crash::crash,
                "rpc" => rpc::rpc,
                "grows" => lives::grows,
                "hostile" => hostile::hostile,
                x => panic!("{x}"),
            };
            let rep = rnd::apart(s, move || f(vmon::Rng::new(s), vmon::Tier::Quick));
            println!("{:?}\n{:?}\n{} evaluations; wrong: {:#?}", rep.sample, rep.events, rep.evals, rep.wrong)
        }
        _ => vmon::main(&[("C59", props::agreement), ("C60", props::books), ("C61", props::crashes), ("C62", props::requests), ("C63", props::pool), ("C64", props::api), ("C65", props::growth), ("C66", props::hostile)]),
    }
}
