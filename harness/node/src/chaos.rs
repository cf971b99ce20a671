//! Networks whose nodes stop, start and lose each other.
use crate::play::*;
use crate::report::Report;
use crate::scene::two;
use crate::world::*;
use vmon::{Rng, Tier};

pub fn habits(r: &mut Rng) -> Habits {
    Habits {
        tight: false,
        quits: false,
        guests: 0,
        pays: r.below(4),
        asks: *r.pick(&[0, 2, 3]),
        stakes: true,
        unstakes: r.bool(),
        hosts: vec!["good", "good", "liar", "broken", ""],
        doubles: r.bool(),
    }
}
pub fn plan(r: &mut Rng, nodes: u32, v2: u32) -> Plan {
    Plan {
        v1_8: if v2 == u32::MAX { u32::MAX } else { 3.min(v2) },
        v2,
        superblock_period: *r.pick(&[3, 5, 10]),
        activity_period: 2000,
        ..two(nodes)
    }
}
pub async fn one_epoch(p: &mut Play, e: u32, r: &mut Rng) {
    let s = p.synced().await;
    if !s.is_empty() {
        let n = *r.pick(&s);
        p.l.follow(&p.w, n).await;
    }
    p.act(e, &s).await;
    p.w.until_epoch(e, f64::from(p.period(e)) * 0.7).await;
    p.watch().await;
    if std::env::var("PLAY_LOG").is_ok() {
        println!("{e} {}", p.describe().await);
    }
}
/// While enough of the committee to confirm superblocks is up and connected, whatever befalls the others, the
/// network goes on, and once those are back everybody agrees.
pub fn agreement(mut r: Rng, tier: Tier) -> Report {
    let seed = r.u64();
    crate::scene::sources(seed);
    // so many vote, so many of them can be missed, and everybody has enough peers to miss those too: who hears less
    // than half of the peers it wants stops to follow the chain
    let (voters, spare, outbound) = *r.pick(&[(5u32, 1u32, 3u16), (5, 1, 4), (6, 1, 4), (7, 2, 5)]);
    let late = r.bool();
    let nodes = voters + u32::from(late);
    let v2 = *r.pick(&[u32::MAX, 12, 12, 30]);
    let p = Plan { voters, outbound, ..plan(&mut r, nodes, v2) };
    let len = (if tier == Tier::Thorough { 60 } else { 40 }) + r.below(20) as u32;
    let lag = r.below(3) as u32;
    let ((mut rep, log), s) = network(seed, lag, p, |mut w| async move {
        for n in 0..voters {
            w.provision(n);
            w.start(n);
        }
        let h = habits(&mut r);
        let sp = w.plan.superblock_period as u32;
        let mut p = Play::new(w, r.clone(), h);
        let mut log = format!("{voters} vote, superblocks every {sp}; ");
        let calm = sp * 2 + 6;
        let joins = if late { calm + r.below(30) as u32 } else { u32::MAX };
        // until when trouble lasts; since when it is over
        let mut trouble: Option<u32> = None;
        let mut well_since = 0;
        let mut waited = 0;
        let mut last_tip = (0, 0);
        let patience = 4 * sp + 20;
        let mut e = 0;
        let mut bad: Vec<u32> = vec![];
        loop {
            p.w.until_epoch(e, 3.0).await;
            if e >= joins && !p.w.alive[voters as usize] && trouble.is_none() {
                p.w.provision(voters);
                p.w.start(voters);
                log += &format!("{e} newcomer; ");
                p.rep.event("newcomers");
                waited = 0;
            }
            if let Some(u) = trouble {
                if e >= u {
                    if p.sides.iter().any(|x| *x != 0) {
                        p.heal().await;
                        log += &format!("{e} heal; ");
                    }
                    for n in 0..voters {
                        if !p.w.alive[n as usize] {
                            p.w.start(n);
                            log += &format!("{e} start {n}; ");
                            p.rep.event("restarts");
                        }
                    }
                    // those who lost a peer for long have forgotten it
                    p.w.until_epoch(e, 8.0).await;
                    p.heal().await;
                    trouble = None;
                    waited = 0;
                }
            } else if e > calm {
                let all = p.synced().await == p.alive();
                let mut tips = std::collections::HashSet::new();
                for n in p.alive() {
                    tips.insert(p.w.tip(n).await);
                }
                if all && tips.len() == 1 {
                    well_since += 1;
                    if waited > 0 {
                        p.rep.event("networks that recovered");
                        log += &format!("{e} well; ");
                        waited = 0;
                        let a = p.alive();
                        for n in &a[1..] {
                            p.alike(a[0], *n, "recovered").await;
                        }
                    }
                    if e >= len {
                        break;
                    }
                } else {
                    well_since = 0;
                    waited += 1;
                    let d = p.describe().await;
                    if !p.rep.check(waited <= patience, "does-not-converge", || format!("{patience} epochs after the last fault ended, in epoch {e}: {d}; {log}")) {
                        break;
                    }
                }
                if well_since > 0 && e < len && r.chance(1, 3) {
                    let mut all: Vec<u32> = (0..voters).collect();
                    r.shuffle(&mut all);
                    bad = all[..1 + r.idx(spare as usize)].to_vec();
                    let until = e + 1 + r.below(u64::from(2 * sp)) as u32;
                    trouble = Some(until);
                    well_since = 0;
                    last_tip = (e, 0);
                    if r.bool() {
                        let together = r.bool();
                        let sides: Vec<u8> = (0..nodes).map(|n| bad.iter().position(|b| *b == n).map_or(0, |i| 1 + if together { 0 } else { i as u8 })).collect();
                        log += &format!("{e} split {sides:?} until {until}; ");
                        p.split(sides);
                    } else {
                        p.w.until_epoch(e, r.below(12) as f64 * 0.75).await;
                        for n in &bad {
                            log += &format!("{e} kill {n} until {until}; ");
                            p.w.kill(*n);
                            p.rep.event("kills");
                        }
                    }
                }
            }
            if trouble.is_some() {
                // those who are not missed go on
                let mut tip = 0;
                for n in (0..voters).filter(|n| !bad.contains(n)) {
                    tip = tip.max(p.w.tip(n).await.map_or(0, |t| t.checkpoint));
                }
                if tip > last_tip.1 {
                    last_tip = (e, tip);
                }
                let d = p.describe().await;
                p.rep.check(e - last_tip.0 <= 8, "stalls-without-a-minority", || format!("no block since epoch {}, now {e}: {d}; {log}", last_tip.0));
                p.rep.event("epochs with part of the committee missing");
            }
            one_epoch(&mut p, e, &mut r).await;
            e += 1;
        }
        p.rep.shapes.push(vmon::h64(&log));
        p.rep.events("epochs", e.into());
        (p.rep, log)
    });
    for (a, x) in s.panics.borrow().iter() {
        rep.check(false, "panic", || format!("{a}: {x}; {log}"));
    }
    rep.sample = Some(log);
    rep
}
/// Any faults at all: the network may be left without a committee, but never with two truths.
pub fn havoc(mut r: Rng, _tier: Tier) -> Report {
    let seed = r.u64();
    crate::scene::sources(seed);
    let nodes = *r.pick(&[3, 5]);
    let v2 = *r.pick(&[u32::MAX, 12, 12]);
    let p = plan(&mut r, nodes, v2);
    // (a network cut in two for longer than the activity period has two committees, by design)
    let len = 30 + r.below(20) as u32;
    let lag = r.below(3) as u32;
    let ((mut rep, log), s) = network(seed, lag, p, |mut w| async move {
        w.start_all();
        let h = habits(&mut r);
        let mut p = Play::new(w, r.clone(), h);
        let mut log = String::new();
        let calm = p.w.plan.superblock_period as u32 * 2 + 6;
        let mut trouble_until = 0;
        for e in 0..len {
            p.w.until_epoch(e, 3.0).await;
            if e > calm && e >= trouble_until {
                if p.sides.iter().any(|x| *x != 0) {
                    p.heal().await;
                    log += &format!("{e} heal; ");
                }
                for n in 0..nodes {
                    if !p.w.alive[n as usize] {
                        p.w.start(n);
                        log += &format!("{e} start {n}; ");
                        p.rep.event("restarts");
                    }
                }
                if r.chance(1, 3) && e + 8 < len {
                    trouble_until = e + 1 + r.below(12) as u32;
                    if r.bool() {
                        let sides: Vec<u8> = (0..nodes).map(|_| r.below(3) as u8).collect();
                        log += &format!("{e} split {sides:?} until {trouble_until}; ");
                        p.split(sides);
                    } else {
                        for n in 0..nodes {
                            if r.bool() {
                                log += &format!("{e} kill {n} until {trouble_until}; ");
                                p.w.kill(n);
                                p.rep.event("kills");
                            }
                        }
                    }
                }
            }
            one_epoch(&mut p, e, &mut r).await;
        }
        p.rep.shapes.push(vmon::h64(&log));
        p.rep.events("epochs", len.into());
        (p.rep, log)
    });
    for (a, x) in s.panics.borrow().iter() {
        rep.check(false, "panic", || format!("{a}: {x}; {log}"));
    }
    rep.sample = Some(log);
    rep
}
