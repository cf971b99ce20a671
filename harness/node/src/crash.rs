//! A node that stops between any two writes to its disk comes back.
use crate::chaos;
use crate::play::*;
use crate::report::Report;
use crate::world::*;
use std::collections::BTreeMap;
use vmon::{Rng, Tier};
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_node::actors::messages::*;

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
/// What a node serves of its own chain.
async fn serves(p: &mut Play, n: u32) {
    let Some(chain) = p.w.chain_of(n).await else { return };
    for (e, h) in &chain {
        let b = p.w.block(n, *h).await;
        let ok = b.as_ref().is_some_and(|b| b.versioned_hash(ProtocolVersion::from_epoch(*e)) == *h);
        p.rep.check(ok, "block-not-served", || format!("node {n} lists {h} of epoch {e} on its chain and gives {:?}", b.map(|b| b.block_header)));
        p.rep.event("blocks asked for after a crash");
    }
    let hs: Vec<_> = p.l.books.seen.iter().filter(|(_, x)| x.3 != "mint" && x.0 > 0).map(|(h, x)| (*h, *x)).collect();
    let on: BTreeMap<u32, _> = chain.into_iter().collect();
    for (h, (e, b, _, k)) in hs {
        if on.get(&e) != Some(&b) {
            continue;
        }
        let x = p.w.inv(n, GetItemTransaction { hash: h }).await;
        let ok = matches!(&x, Some(Ok((t, at, epoch))) if t_hash(t, e) == h && at.block_hash == b && *epoch == e);
        p.rep.check(ok, "transaction-not-served", || format!("node {n} on {k} {h} of epoch {e}: {x:?}"));
        p.rep.event("transactions asked for after a crash");
    }
}
pub fn crash(mut r: Rng, tier: Tier) -> Report {
    let seed = r.u64();
    crate::scene::sources(seed);
    let (voters, outbound) = *r.pick(&[(5u32, 3u16), (5, 4), (6, 4)]);
    // the one that stops may sit in the committee or not
    let watcher = r.bool();
    let nodes = voters + u32::from(watcher);
    let v2 = *r.pick(&[u32::MAX, 12, 12, 25]);
    let plan = Plan { voters, outbound, ..chaos::plan(&mut r, nodes, v2) };
    let rounds = if tier == Tier::Thorough { 8 } else { 5 };
    let lag = r.below(3) as u32;
    let ((mut rep, log), s) = network(seed, lag, plan, |mut w| async move {
        w.start_all();
        let h = chaos::habits(&mut r);
        let sp = w.plan.superblock_period as u32;
        let mut p = Play::new(w, r.clone(), h);
        let who = if watcher { voters } else { r.below(u64::from(voters)) as u32 };
        let mut log = format!("{voters} vote, node {who} stops, superblocks every {sp}; ");
        let disk = p.w.disk(who);
        let mut base: Map = disk.contents();
        disk.clear_journal();
        let mut e = 0;
        let calm = sp * 2 + 6;
        let patience = 4 * sp + 20;
        for k in 0..rounds {
            // some life
            let until = if k == 0 { calm + r.below(20) as u32 } else { e + 1 + r.below(u64::from(sp) + 3) as u32 };
            while e < until {
                p.w.until_epoch(e, 3.0).await;
                chaos::one_epoch(&mut p, e, &mut r).await;
                e += 1;
            }
            p.w.until_epoch(e, f64::from(p.period(e)) * (r.below(100) as f64) / 100.0).await;
            p.w.kill(who);
            let ops = disk.journal.lock().unwrap().clone();
            // anywhere in its life since the last time, mostly close to the end
            let cut = match r.below(4) {
                0 => r.idx(ops.len() + 1),
                1 => ops.len() - r.idx(ops.len().min(200) + 1),
                _ => ops.len() - r.idx(ops.len().min(40) + 1),
            };
            let mut m = base.clone();
            for o in &ops[..cut] {
                rocksdb::apply(&mut m, o);
            }
            disk.set_contents(m.clone());
            disk.clear_journal();
            base = m;
            log += &format!("{e} stops, {cut} of {} writes; ", ops.len());
            if std::env::var("PLAY_LOG").is_ok() {
                for (i, o) in ops.iter().enumerate() {
                    let ks: Vec<String> = o.iter().map(|o| match o { rocksdb::Op::Put(k, v) => format!("+{}:{}", String::from_utf8_lossy(&k[k.len().min(8)..]).chars().take(40).map(|c| if c.is_ascii_graphic() { c } else { '.' }).collect::<String>(), v.len()), rocksdb::Op::Delete(k) => format!("-{}", k.len()) }).collect();
                    println!("{i}{} {}", if i == cut { " CUT" } else { "" }, ks.join(" ").chars().take(200).collect::<String>());
                }
            }
            p.rep.event("crashes");
            p.rep.events("writes cut off", (ops.len() - cut) as u64);
            p.confirmed_up_to[who as usize] = 0;
            let down = r.below(3) as u32;
            for _ in 0..down {
                p.w.until_epoch(e, 3.0).await;
                chaos::one_epoch(&mut p, e, &mut r).await;
                e += 1;
            }
            p.w.start(who);
            let mut waited = 0;
            loop {
                p.w.until_epoch(e, 8.0).await;
                if waited == 1 {
                    p.heal().await;
                }
                chaos::one_epoch(&mut p, e, &mut r).await;
                e += 1;
                waited += 1;
                let all = p.synced().await == p.alive();
                let mut tips = std::collections::HashSet::new();
                for n in p.alive() {
                    tips.insert(p.w.tip(n).await);
                }
                if all && tips.len() == 1 {
                    break;
                }
                let d = p.describe().await;
                if !p.rep.check(waited <= patience, "does-not-come-back", || format!("{patience} epochs after the restart, in epoch {e}: {d}; {log}")) {
                    return (std::mem::take(&mut p.rep), log);
                }
            }
            log += &format!("{e} back after {waited}; ");
            let other = (who + 1) % nodes;
            p.l.follow(&p.w, other).await;
            p.alike(other, who, "after a crash").await;
            serves(&mut p, who).await;
        }
        p.rep.shapes.push(vmon::h64(&log));
        p.rep.events("epochs", e.into());
        (std::mem::take(&mut p.rep), log)
    });
    for (a, x) in s.panics.borrow().iter() {
        rep.check(false, "panic", || format!("{a}: {x}; {log}"));
    }
    rep.sample = Some(log);
    rep
}
