//! C49, C50: framing of messages between peers, and the beacons of an epoch.
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use bytes::BytesMut;
use tokio_util::codec::{Decoder, Encoder};
use vmon::{Case, Mon};
use witnet_data_structures::chain::{CheckpointBeacon, Hash};
use witnet_data_structures::types::LastBeacon;

use crate::beacons::Beacons;
use crate::codec::P2PCodec;
use crate::peers::address;

fn message(c: &mut Case) -> Vec<u8> {
    let n = match c.rng.below(8) {
        0 => 0,
        1 => 1,
        2 => 3 + c.rng.idx(3),
        3 => 255 + c.rng.idx(3),
        4 => 65_535 + c.rng.idx(3),
        _ => c.rng.idx(300),
    };
    let mut b = c.rng.bytes(n);
    // contents that look like headers
    if n >= 4 && c.rng.chance(1, 3) {
        let v = (c.rng.below(8) as u32).to_be_bytes();
        b[..4].copy_from_slice(&v);
    }
    b
}
fn stream(c: &mut Case) {
    let k = c.rng.idx(8);
    let msgs: Vec<Vec<u8>> = (0..k).map(|_| message(c)).collect();
    let mut codec = P2PCodec;
    let mut wire = BytesMut::new();
    let mut want = vec![];
    for m in &msgs {
        let r = codec.encode(BytesMut::from(&m[..]), &mut wire);
        c.check(r.is_ok(), "encode", || format!("a message of {} bytes: {r:?}", m.len()));
        want.extend((m.len() as u32).to_be_bytes());
        want.extend(m);
    }
    c.check(wire[..] == want[..], "format", || format!("messages of {:?} bytes were written as {} bytes", msgs.iter().map(Vec::len).collect::<Vec<_>>(), wire.len()));
    // what may follow: part of a message, whose size may be anything
    let mut tail = vec![];
    match c.rng.below(4) {
        0 => {
            let n = c.rng.idx(4);
            tail = c.rng.bytes(n);
        }
        1 => {
            let size = *c.rng.pick(&[1u32, 5, 1000, 0x7fff_ffff, u32::MAX, u32::MAX - 3]);
            let n = c.rng.idx(size.min(300) as usize);
            tail = size.to_be_bytes().to_vec();
            tail.extend(c.rng.bytes(n));
        }
        _ => {}
    }
    want.extend(&tail);
    // it arrives in pieces
    let mut got: Vec<Vec<u8>> = vec![];
    let mut buf = BytesMut::new();
    let mut at = 0;
    let mode = c.rng.below(4);
    let mut pieces = 0u64;
    loop {
        let n = match mode {
            0 => 1,
            1 => want.len(),
            2 => c.rng.idx(9),
            _ => c.rng.idx(2000),
        }
        .min(want.len() - at);
        buf.extend_from_slice(&want[at..at + n]);
        at += n;
        pieces += 1;
        loop {
            match codec.decode(&mut buf) {
                Ok(Some(m)) => got.push(m.to_vec()),
                Ok(None) => break,
                Err(e) => {
                    c.violate("decode", format!("{e}"));
                    return;
                }
            }
            if !c.check(got.len() <= msgs.len(), "invented", || format!("{} messages out of {}", got.len(), msgs.len())) {
                return;
            }
            if c.rng.chance(1, 5) {
                break;
            }
        }
        if at == want.len() {
            while let Ok(Some(m)) = codec.decode(&mut buf) {
                got.push(m.to_vec());
            }
            break;
        }
    }
    c.check(got == msgs, "messages", || format!("messages of {:?} bytes arrived as {:?}", msgs.iter().map(Vec::len).collect::<Vec<_>>(), got.iter().map(Vec::len).collect::<Vec<_>>()));
    c.check(buf[..] == tail[..], "rest", || format!("of an unfinished message of {} bytes, {} were kept", tail.len(), buf.len()));
    c.check(buf.capacity() < 4 * want.len() + 70_000, "memory", || format!("{} bytes received, buffer of {}", want.len(), buf.capacity()));
    // the end of the connection does not turn the rest into a message
    match codec.decode_eof(&mut buf) {
        Ok(None) => c.check(tail.is_empty(), "eof", || "an unfinished message was dropped silently at the end".into()),
        Ok(Some(_)) => c.check(false, "eof", || "an unfinished message was delivered at the end".into()),
        Err(_) => c.check(!tail.is_empty(), "eof", || "error at the end of a complete stream".into()),
    };
    c.events("messages", k as u64);
    c.events("pieces", pieces);
    c.event(if tail.is_empty() { "complete" } else { "unfinished" });
    c.eval(5);
    c.nontrivial(&want);
}
pub fn framing(m: &mut Mon) {
    m.rule("messages written by the encoder, cut into pieces in any way, come out of the decoder whole, in order, once; what is unfinished stays");
    let n = m.n(12_000, 200_000);
    m.run_par("stream", n, stream);
    m.require("messages", 5000);
    m.require("pieces", 10_000);
    m.require("unfinished", 500);
    m.require("complete", 500);
}

fn beacon(n: u32) -> LastBeacon {
    let b = CheckpointBeacon { checkpoint: n, hash_prev_block: Hash::default() };
    LastBeacon { highest_block_checkpoint: b, highest_superblock_checkpoint: CheckpointBeacon::default() }
}
fn epochs(c: &mut Case) {
    let mut b = Beacons::default();
    let pool: Vec<SocketAddr> = {
        let n = 1 + c.rng.idx(6);
        (0..n).map(|_| address(&mut c.rng)).collect()
    };
    let mut with: BTreeMap<SocketAddr, LastBeacon> = BTreeMap::new();
    let mut without: BTreeSet<SocketAddr> = BTreeSet::new();
    let mut sent = false;
    for k in 0..(5 + c.rng.idx(40)) {
        let a = *c.rng.pick(&pool);
        let what = match c.rng.below(8) {
            0 | 1 | 2 => {
                let v = beacon(k as u32);
                b.insert(a, v.clone());
                with.insert(a, v);
                without.remove(&a);
                "insert"
            }
            3 => {
                b.remove(&a);
                with.remove(&a);
                without.remove(&a);
                c.event("left");
                "remove"
            }
            4 => {
                b.also_wait_for(a);
                if !with.contains_key(&a) {
                    without.insert(a);
                    c.event("late_peer");
                }
                "also_wait_for"
            }
            5 => {
                let n = c.rng.idx(pool.len() + 1);
                let p: Vec<SocketAddr> = pool[..n].to_vec();
                b.clear(p.iter().copied());
                with.clear();
                without = p.into_iter().collect();
                if c.rng.chance(4, 5) {
                    b.new_epoch();
                    sent = false;
                }
                "clear"
            }
            6 => {
                b.new_epoch();
                sent = false;
                "new_epoch"
            }
            _ => {
                let got = b.send().map(|(w, wo)| (w.iter().map(|(k, v)| (*k, v.clone())).collect::<BTreeMap<_, _>>(), wo.iter().copied().collect::<BTreeSet<_>>()));
                let want = (!sent).then(|| (with.clone(), without.clone()));
                c.event(if sent { "refused" } else { "sent" });
                c.eqd("sent", &got, &want, || format!("what was sent of the beacons{}", if sent { " for the second time in an epoch" } else { "" }));
                sent = true;
                "send"
            }
        };
        c.eqd("already", &b.already_sent(), &sent, || format!("after {what}"));
        c.eqd("count", &b.total_count(), &with.len(), || format!("after {what}"));
        c.eval(2);
    }
    c.nontrivial(&(with.len(), without.len(), pool));
}
pub fn beacons(m: &mut Mon) {
    m.rule("model of the beacons of an epoch: who sent which last beacon, who is still awaited, and that they are handed over once per epoch");
    let n = m.n(50_000, 600_000);
    m.run_par("epochs", n, epochs);
    for e in ["sent", "refused", "left", "late_peer"] {
        m.require(e, 100);
    }
}
