//! The properties, each over the workloads that can break it.
use crate::report::{apart_for, Report};
use crate::{chaos, crash, hostile as foes, lives, rpc};
use vmon::{Case, Mon, Rng, Tier};

type Play = fn(Rng, Tier) -> Report;
fn over(m: &mut Mon, about: &'static [&'static str], plays: &[(&'static str, Play, u64, u64)]) {
    m.hang_is_violation(400);
    for (name, f, q, t) in plays {
        let f = *f;
        let n = m.n(*q, *t);
        m.run_procs(name, n, move |c: &mut Case| apart_for(c, about, f));
    }
}
pub fn agreement(m: &mut Mon) {
    m.rule("Networks of 5 to 8 real nodes (every actor, own disks and keys, virtual time, in-memory connections) in use through both kinds of consensus, in which voters that are not needed for a superblock stop, restart or are cut off, and newcomers arrive; blocks held confirmed, tips and whole chain states are compared between nodes; non-trivial: a distinct course of faults.");
    for (k, n) in [("networks that recovered", 20), ("kills", 10), ("restarts", 10), ("newcomers", 4), ("epochs with part of the committee missing", 60)] {
        m.require(k, n);
    }
    over(m, &[""], &[("agreement", chaos::agreement, 56, 900)]);
}
pub fn books(m: &mut Mon) {
    m.rule("Networks of 3 to 5 real nodes in which people pay, ask, stake and withdraw through both kinds of consensus, left in peace, cut, or with validators that stake as little as they may; an independent ledger replays the blocks the nodes serve and its coins, balances, stakes and places of transactions are compared with what the nodes answer; non-trivial: a distinct chain.");
    for (k, n) in [("blocks replayed", 2000), ("balances of everybody compared", 1000), ("coins compared", 10_000), ("transactions looked up", 1000)] {
        m.require(k, n);
    }
    over(m, &["books:", "found:"], &[("calm", lives::calm, 64, 1400), ("cuts", lives::cuts, 40, 700), ("edge", lives::edge, 40, 700)]);
}
pub fn requests(m: &mut Mon) {
    m.rule("Networks of 3 to 5 real nodes with sources that answer, lie to one node, break for one node, or are absent (random numbers); every request on the chain is followed to its tally, what each witness revealed is compared with what its source told it, who is blamed with who revealed, and the report a node keeps with the chain; non-trivial: a distinct chain.");
    for (k, n) in [("requests resolved", 300), ("reveals compared with their source", 500), ("error reports revealed", 20), ("unanimous results", 50), ("reports compared", 300)] {
        m.require(k, n);
    }
    over(m, &["requests:"], &[("calm", lives::calm, 96, 1700), ("cuts", lives::cuts, 40, 900)]);
}
pub fn pool(m: &mut Mon) {
    m.rule("Networks of 3 to 5 real nodes, in peace or cut so that branches are abandoned, with double spends sent to different nodes; every transaction a node took in must get on the chain unless something else spent its coins, and nothing on the chain may stay pending; non-trivial: a distinct chain.");
    for (k, n) in [("accepted transactions included", 2000), ("accepted transactions overtaken by a double spend", 20), ("pending transactions seen", 1)] {
        m.require(k, n);
    }
    over(m, &["pool:"], &[("calm", lives::calm, 64, 1200), ("cuts", lives::cuts, 80, 1500)]);
}
pub fn crashes(m: &mut Mon) {
    m.rule("Networks of 5 to 7 real nodes in use, of which one stops between two writes of its disk, again and again, and starts from what is there; it must come back to the chain of the others, serve every block and transaction of it, confirm nothing else, and end with the chain state of a node that never stopped; non-trivial: a distinct course of crashes.");
    for (k, n) in [("crashes", 100), ("writes cut off", 1000), ("blocks asked for after a crash", 5000), ("transactions asked for after a crash", 1000), ("pairs of states compared", 20)] {
        m.require(k, n);
    }
    over(m, &[""], &[("crash", crash::crash, 96, 1800)]);
}
pub fn api(m: &mut Mon) {
    m.rule("Networks of 3 to 5 real nodes in use, asked over their JSON-RPC interface for everything the chain holds, with the answers compared with an independent ledger of the blocks, and called with every method and parameters that are right, wrong or odd, with and without the sensitive methods; non-trivial: a distinct chain.");
    for (k, n) in [("calls", 20_000), ("getBlock", 2000), ("getTransaction", 1000), ("getDataRequest", 800), ("getBalance2", 200), ("queryStakes", 100), ("searchDataRequests", 100), ("sensitive calls refused", 500), ("odd calls refused", 3000)] {
        m.require(k, n);
    }
    over(m, &[""], &[("rpc", rpc::rpc, 96, 1800)]);
}
pub fn growth(m: &mut Mon) {
    m.rule("Networks of 3 to 6 real nodes, all up and connected, in which users pay, ask for as many witnesses as there may be, and become validators and leave again without running a node; the chain must go on; non-trivial: a distinct chain.");
    for (k, n) in [("epochs in which the chain grew", 2000), ("guests that left", 200), ("requests on chain", 500), ("tallies on chain", 500)] {
        m.require(k, n);
    }
    over(m, &[""], &[("grows", lives::grows, 96, 1800)]);
}
pub fn hostile(m: &mut Mon) {
    m.rule("Networks of 3 to 5 real nodes in use, to which 1 to 3 hostile machines connect again and again with up to 4 lines each, and send messages of every kind that are random, cut, mutated, replayed or forged (blocks, among them ones signed anew by a validator that turned, transactions of real coins, votes, commits, reveals, inventories, beacons, peers), while people pay, ask and stake; in some a node stops and comes back, or is new, in the midst of it; the nodes' actors, the growth of the chain, who is in step, the chain states and an independent ledger are watched during the attack and after it; non-trivial: a distinct chain and course of attack.");
    for (k, n) in [("foes: messages sent", 200_000), ("foes: messages received", 50_000), ("foes: handshakes begun", 500), ("foes: candidates forged", 1000), ("foes: candidates forged by their miner", 100), ("epochs in which the chain grew", 1500), ("pairs of states compared", 100), ("restarts during an attack", 20), ("newcomers during an attack", 5)] {
        m.require(k, n);
    }
    over(m, &[""], &[("hostile", foes::hostile, 72, 1200)]);
}
