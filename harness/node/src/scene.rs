use crate::life::*;
use crate::report::Report;
use crate::world::*;
use std::collections::BTreeMap;
use vmon::Rng;
use witnet_data_structures::chain::*;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::wit::Wit;
use witnet_node::actors::messages::*;
use witnet_data_structures::transaction_factory::NodeBalance;

pub fn two(nodes: u32) -> Plan {
    Plan {
        nodes,
        users: 4,
        v1_8: 3,
        v2: 12,
        coins: vec![(200_000 * WIT, 3), (1000 * WIT, 8)],
        node_coins: vec![(50_000 * WIT, 2), (100 * WIT, 8)],
        ..Default::default()
    }
}
pub fn sources(seed: u64) {
    reqwest::mock::set(Some(std::rc::Rc::new(move |s: &reqwest::mock::Seen| {
        let n = actix::sim::node();
        let v = vmon::h64(&(seed, s.url.as_str())) % 1000;
        // hosts say how the witnesses fare
        let v = if s.url.contains("//liar") && n == 1 { v + 1 } else { v };
        if s.url.contains("//broken") && n == 2 {
            return Err("unreachable".into());
        }
        Ok(reqwest::mock::Answer {
            status: 200,
            headers: Default::default(),
            body: format!("{{\"v\": {v}}}").into_bytes(),
            broken_body: false,
            delay: std::time::Duration::from_millis(20),
        })
    })));
}
/// What a node says there is.
pub struct Told {
    pub balances: BTreeMap<PublicKeyHash, u128>,
    pub stakes: BTreeMap<PublicKeyHash, u128>,
    pub entries: usize,
}
pub async fn told(w: &World, n: u32) -> Option<Told> {
    let b = w.chain(n, GetBalance { target: GetBalanceTarget::All, simple: true }).await?.ok()?;
    let mut balances = BTreeMap::new();
    if let NodeBalance::Many(m) = b {
        for (k, v) in m {
            if let NodeBalance::One { total, .. } = v {
                balances.insert(k, u128::from(total));
            }
        }
    }
    let q = w.chain(n, QueryStakes { filter: Some(QueryStakesFilter::default()), params: None }).await?;
    let mut stakes = BTreeMap::new();
    let mut entries = 0;
    if let Ok(q) = q {
        for e in q {
            entries += 1;
            *stakes.entry(e.key.validator).or_insert(0) += u128::from(e.value.coins.nanowits());
        }
    }
    Some(Told { balances, stakes, entries })
}
pub fn compare(rep: &mut Report, l: &Life, t: &Told, n: u32) {
    let mine = l.books.balances();
    for k in mine.keys().chain(t.balances.keys()) {
        let (a, b) = (t.balances.get(k).copied().unwrap_or(0), mine.get(k).copied().unwrap_or(0));
        rep.check(a == b, "balance-differs", || format!("node {n} at epoch {}: {k} has {a}, the blocks say {b}", l.epoch()));
    }
    for k in l.books.stakes.keys().chain(t.stakes.keys()) {
        let (a, b) = (t.stakes.get(k).copied().unwrap_or(0), l.books.stakes.get(k).copied().unwrap_or(0));
        rep.check(a == b, "stake-differs", || format!("node {n} at epoch {}: {k} has staked {a}, the blocks say {b}", l.epoch()));
    }
}
pub fn demo() {
    let t = std::time::Instant::now();
    let seed: u64 = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let e: u32 = std::env::args().nth(3).and_then(|x| x.parse().ok()).unwrap_or(30);
    let rep = crate::rnd::apart(seed, || {
        let mut r = Rng::new(seed);
        sources(seed);
        let ((mut rep, counts), s) = network(seed, 0, two(4), |mut w| async move {
            let mut rep = Report::default();
            w.start_all();
            let mut l = Life::new(&w);
            for i in 0..e {
                w.until_epoch(i, 5.0).await;
                for n in 0..w.plan.nodes {
                    print!(" {:?} {:?}", w.state(n).await, w.tip(n).await.map(|b| (b.checkpoint, b.hash_prev_block.to_string()[..8].to_string())));
                }
                println!();
                if w.state(0).await != Some(StateMachine::Synced) {
                    continue;
                }
                l.follow(&w, 0).await;
                if let Some(t) = told(&w, 0).await {
                    compare(&mut rep, &l, &t, 0);
                }
                let users = w.users.clone();
                let keys = w.keys.clone();
                let mut todo = vec![];
                for _ in 0..3 {
                    let (a, b) = (r.idx(users.len()), r.idx(users.len()));
                    let v = 1 + r.below(100 * WIT);
                    let fee = r.below(1_000_000);
                    todo.extend(l.pay(&mut r, &w, &users[a], users[b].pkh, v, fee, 0));
                }
                if i % 3 == 0 {
                    let a = r.idx(users.len());
                    let host = *r.pick(&["good", "good", "liar", "broken", ""]);
                    l.counter += 1;
                    let url = format!("https://{host}.example/{}", l.counter);
                    let wit = 1 + r.below(3) as u16;
                    let o = request(&mut r, (!host.is_empty()).then_some(url.as_str()), wit);
                    let fee = r.below(1_000_000);
                    todo.extend(l.ask(&mut r, &users[a], o, fee));
                }
                if i >= w.plan.v1_8 && i < w.plan.v1_8 + w.plan.nodes {
                    let k = (i - w.plan.v1_8) as usize;
                    let v = 11_000 * WIT + r.below(20_000 * WIT);
                    todo.extend(l.stake(&mut r, &users[k % users.len()], &keys[k], users[k % users.len()].pkh, v, 1000));
                }
                for t in todo {
                    let n = r.idx(w.plan.nodes as usize) as u32;
                    if let Err(e) = l.send(&w, n, t.clone()).await {
                        println!("   refused: {e}");
                    }
                }
            }
            for (s, d) in std::mem::take(&mut l.books.wrong) {
                rep.check(false, s, || d);
            }
            for (k, v) in &l.books.closed {
                println!("closed {k}: {} commits {} reveals tally {} lies {} errors {}", v.open.commits.len(), v.open.reveals.len(), vmon::hex(&v.tally.tally), v.tally.out_of_consensus.len(), v.tally.error_committers.len());
            }
            (rep, (l.books.counts.clone(), l.books.open.len()))
        });
        println!("{counts:?}");
        for (a, p) in s.panics.borrow().iter() {
            rep.check(false, "panic", || format!("{a}: {p}"));
        }
        rep
    });
    println!("{:?} wrong: {:#?}", t.elapsed(), rep.wrong);
}
