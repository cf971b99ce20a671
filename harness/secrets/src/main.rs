//! Heap-residue monitor: a global allocator that inspects every block at the moment the code under test
//! releases it, looking for fragments of the secrets the workload planted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

use vmon::{hex, Case, Mon};
use witnet_crypto::key::{ExtendedPK, ExtendedSK, KeyPath, MasterKeyGen, SK};
use witnet_crypto::pbkdf2::pbkdf2_sha256;
use witnet_protected::{Protected, ProtectedString};

const MAX: usize = 4096;
struct Watch;
static ARMED: AtomicBool = AtomicBool::new(false);
static LEN: AtomicUsize = AtomicUsize::new(0);
static mut SECRET: [u8; MAX] = [0; MAX];
static INSPECTED: AtomicU64 = AtomicU64::new(0);
static CLEARED: AtomicU64 = AtomicU64::new(0);
static LEAKS: AtomicU64 = AtomicU64::new(0);
static LEAK_SIZE: AtomicUsize = AtomicUsize::new(0);
static LEAK_OFF: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static MINE: Cell<bool> = const { Cell::new(false) };
}

/// Length of the fragments looked for anywhere in a released block: any 6 consecutive secret bytes.
const WIN: usize = 6;
/// Buffers of live containers: (address, length). When one of them is released, every byte must be zero.
const TRACKED: usize = 64;
static TRACK: [(AtomicUsize, AtomicUsize); TRACKED] = [const { (AtomicUsize::new(0), AtomicUsize::new(0)) }; TRACKED];

/// Watch the buffer of a container until it is released.
fn track(b: &[u8]) {
    if b.is_empty() {
        return;
    }
    let a = b.as_ptr() as usize;
    for t in &TRACK {
        if t.0.load(Ordering::SeqCst) == a {
            return;
        }
    }
    for t in &TRACK {
        if t.0.compare_exchange(0, a, Ordering::SeqCst, Ordering::SeqCst).is_ok() {
            t.1.store(b.len(), Ordering::SeqCst);
            return;
        }
    }
}
fn tr(p: Protected) -> Protected {
    track(&p);
    p
}
fn ts(p: ProtectedString) -> ProtectedString {
    track(p.as_ref());
    p
}

unsafe fn inspect(p: *const u8, n: usize) {
    if !ARMED.load(Ordering::Relaxed) || MINE.with(|m| m.get()) {
        return;
    }
    let l = LEN.load(Ordering::Relaxed);
    if l == 0 || n == 0 {
        return;
    }
    INSPECTED.fetch_add(1, Ordering::Relaxed);
    for t in &TRACK {
        if t.0.load(Ordering::Relaxed) == p as usize {
            t.0.store(0, Ordering::Relaxed);
            let tl = t.1.load(Ordering::Relaxed).min(n);
            let mut i = 0;
            while i < tl && std::ptr::read_volatile(p.add(i)) == 0 {
                i += 1;
            }
            if i < tl {
                LEAKS.fetch_add(1, Ordering::Relaxed);
                LEAK_SIZE.store(n, Ordering::Relaxed);
                LEAK_OFF.store(i, Ordering::Relaxed);
                return;
            }
            CLEARED.fetch_add(1, Ordering::Relaxed);
        }
    }
    let w = WIN;
    if n < w || l < w {
        return;
    }
    let secret = std::slice::from_raw_parts(std::ptr::addr_of!(SECRET) as *const u8, l);
    let mut all_zero = true;
    let mut i = 0;
    while i + w <= n {
        // volatile: the block may be partially uninitialised, read it bytewise
        let first = std::ptr::read_volatile(p.add(i));
        if first != 0 {
            all_zero = false;
        }
        let mut k = 0;
        while k + w <= l {
            if secret[k] == first {
                let mut j = 1;
                while j < w && std::ptr::read_volatile(p.add(i + j)) == secret[k + j] {
                    j += 1;
                }
                if j == w {
                    LEAKS.fetch_add(1, Ordering::Relaxed);
                    LEAK_SIZE.store(n, Ordering::Relaxed);
                    LEAK_OFF.store(i, Ordering::Relaxed);
                    return;
                }
            }
            k += 1;
        }
        i += 1;
    }
    let _ = all_zero;
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED.load(Ordering::Relaxed) {
            // Fresh blocks are zeroed so that stale contents of reused memory are never blamed.
            return System.alloc_zeroed(l);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        inspect(p, l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ARMED.load(Ordering::Relaxed) {
            // Always move, as an allocator is free to do.
            let q = System.alloc_zeroed(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            inspect(p, l.size());
            System.dealloc(p, l);
            return q;
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Watch = Watch;

/// Run `f` with the monitor armed for `secret`; returns the number of leaking releases.
fn watch<R>(secret: &[u8], f: impl FnOnce() -> R) -> (R, u64, usize, usize, u64, u64) {
    assert!(secret.len() <= MAX);
    unsafe {
        let p = std::ptr::addr_of_mut!(SECRET) as *mut u8;
        std::ptr::copy_nonoverlapping(secret.as_ptr(), p, secret.len());
    }
    LEN.store(secret.len(), Ordering::SeqCst);
    for c in [&INSPECTED, &CLEARED, &LEAKS] {
        c.store(0, Ordering::SeqCst);
    }
    for t in &TRACK {
        t.0.store(0, Ordering::SeqCst);
    }
    ARMED.store(true, Ordering::SeqCst);
    let r = f();
    ARMED.store(false, Ordering::SeqCst);
    (
        r,
        LEAKS.load(Ordering::SeqCst),
        LEAK_SIZE.load(Ordering::SeqCst),
        LEAK_OFF.load(Ordering::SeqCst),
        INSPECTED.load(Ordering::SeqCst),
        CLEARED.load(Ordering::SeqCst),
    )
}

/// A secret whose every byte is non-zero and, for text, printable ASCII.
fn secret(c: &mut Case, text: bool) -> Vec<u8> {
    let n = match c.rng.below(5) {
        0 => 1 + c.rng.below(8) as usize,
        1 => 32,
        2 => 64,
        3 => 1 + c.rng.below(300) as usize,
        _ => *c.rng.pick(&[4, 15, 16, 17, 31, 33, 63, 65, 127, 128, 129, 1000, 4096]),
    };
    (0..n).map(|_| if text { 33 + c.rng.below(94) as u8 } else { 1 + c.rng.below(255) as u8 }).collect()
}

/// Exactly sized copy handed over to the container.
fn owned(s: &[u8]) -> Vec<u8> {
    s.to_vec()
}

fn erasure(m: &mut Mon) {
    m.rule("Secrets of 1..4096 random non-zero bytes put in the protected containers through every public way in (vector, boxed slice, slice, string, &str, conversions, bincode), then cloned, overwritten, swapped, compared, sorted, mutated, moved across threads, dropped normally, in collections, by early return and by panic unwinding; and key material taken out of extended keys and password derivation. An allocator that moves on every realloc inspects every released block for any 6 consecutive secret bytes, and the buffer of every container must be all zero when it is released. Non-trivial: a case in which at least one block was inspected, counted by secret.");
    m.require("blocks_inspected", 2000);
    m.require("blocks_zeroed", 1000);
    let report = |c: &mut Case, op: &str, s: &[u8], r: (u64, usize, usize, u64, u64)| {
        c.events("blocks_inspected", r.3);
        c.events("blocks_zeroed", r.4);
        c.event(&format!("op:{op}"));
        if r.3 > 0 {
            c.nontrivial(s);
        }
        let h = hex(&s[..s.len().min(64)]);
        c.check(r.0 == 0, &format!("residue:{op}"), || {
            format!("after '{op}' {} released block(s) are not zeroed / still hold part of the {}-byte secret {h} (last: block of {} bytes at offset {})", r.0, s.len(), r.1, r.2)
        });
    };
    let n = m.n(60_000, 600_000);
    m.run("bytes", n, |c| {
        let s = secret(c, false);
        let op = c.rng.below(18);
        let cut = c.rng.idx(s.len());
        let name = [
            "from_vec", "from_slice", "new_vec", "boxed", "clone", "overwrite", "swap", "collection", "unwind",
            "thread", "mutate", "option_take", "bincode", "serialize", "from_string", "spare_capacity", "from_deque", "compare_sort",
        ][op as usize];
        let enc = bincode::serialize(&s).unwrap();
        let v = owned(&s);
        let mut out = vec![0u8; s.len() * 5 + 64];
        let deque: std::collections::VecDeque<u8> = if op == 16 { v.iter().copied().collect() } else { Default::default() };
        let (_, l, sz, off, ins, z) = watch(&s, || match op {
            0 => drop(tr(Protected::from(v))),
            // written out into a buffer of the caller's
            13 => {
                let p = tr(Protected::from(v));
                bincode::serialize_into(&mut out[..], &p).unwrap();
                serde_json::to_writer(&mut out[..], &p).unwrap();
                drop(p);
            }
            14 => {
                let n = v.iter().map(|b| b & 0x7f | 1).collect::<Vec<u8>>();
                let t = String::from_utf8(n).unwrap();
                let p = tr(Protected::from(t));
                drop(tr(p.clone()));
                drop(p);
                drop(tr(Protected::from(v)));
            }
            15 => {
                let mut w = Vec::with_capacity(s.len() * 2 + cut);
                w.extend_from_slice(&s);
                let p = tr(Protected::new(w));
                drop(tr(p.clone()));
                drop(p);
                drop(tr(Protected::from(v)));
            }
            16 => {
                drop(tr(Protected::from(deque)));
                drop(tr(Protected::from(v)));
            }
            1 => {
                let p = tr(Protected::from(&s[..]));
                drop(p);
                // the caller's own copy is the caller's
                drop(tr(Protected::new(v)))
            }
            2 => {
                let p = tr(Protected::new(v));
                assert_eq!(p.as_ref(), &s[..]);
            }
            3 => drop(tr(Protected::from(v.into_boxed_slice()))),
            4 => {
                let a = tr(Protected::from(v));
                let b = tr(a.clone());
                let c2 = tr(b.clone());
                drop(a);
                assert_eq!(&b[..], &s[..]);
                drop(c2);
            }
            5 => {
                let mut a = tr(Protected::from(v));
                a = Protected::from(vec![0u8; 5]);
                a.as_mut()[0] = 1;
                let mut b = tr(Protected::from(&s[..]));
                b.clone_from(&a);
                // Overwritten in place by something longer
                let mut d = tr(Protected::from(&s[..]));
                d.clone_from(&Protected::from(vec![7u8; s.len() * 2 + 1]));
                let mut e = tr(Protected::from(&s[..cut.max(1)]));
                e.clone_from(&d);
                let mut f = Protected::from(vec![0u8; 1]);
                f.clone_from(&tr(Protected::from(&s[..])));
            }
            6 => {
                let mut a = tr(Protected::from(v));
                let mut b = Protected::from(vec![0u8; 3]);
                std::mem::swap(&mut a, &mut b);
                let c2 = std::mem::replace(&mut b, a);
                drop(c2);
            }
            7 => {
                let mut q: Vec<Protected> = Vec::new();
                q.push(tr(Protected::from(v)));
                for _ in 0..5 {
                    q.push(tr(Protected::from(&s[..])));
                }
                q.truncate(3);
                q.remove(0);
                let mut h = std::collections::HashMap::new();
                h.insert(1, q.pop().unwrap());
                h.insert(1, tr(Protected::from(&s[..])));
            }
            8 => {
                let r = vmon::guarded(move || {
                    let _p = tr(Protected::from(v));
                    if cut < usize::MAX {
                        panic!("planned");
                    }
                });
                assert!(r.is_err());
            }
            9 => {
                let p = tr(Protected::from(v));
                std::thread::spawn(move || {
                    let q = tr(p.clone());
                    drop(p);
                    q
                })
                .join()
                .unwrap();
            }
            10 => {
                let mut p = tr(Protected::from(v));
                // Overwrite a part only: the rest must still be erased.
                for b in &mut p.as_mut()[..cut] {
                    *b = 0;
                }
                let d: &mut [u8] = &mut p;
                d.reverse();
                d.reverse();
            }
            11 => {
                let mut o = Some(tr(Protected::from(v)));
                let t = o.take();
                assert!(o.is_none());
                let _ = t.map(|x| x.len());
            }
            12 => {
                // deserializing and dropping, scrubbing our own copies
                let p: Protected = bincode::deserialize(&enc).unwrap();
                track(p.as_ref());
                assert_eq!(p.as_ref(), &s[..]);
                drop(p);
                drop(tr(Protected::from(v)));
            }
            _ => {
                let a = tr(Protected::from(v));
                let mut b = tr(Protected::from(&s[..]));
                let last = b.len() - 1;
                b.as_mut()[last] ^= 1;
                assert!(a != b);
                let mut q = vec![b, tr(a.clone()), a];
                q.sort();
                q.dedup();
            }
        });
        c.sample(|| format!("{name} with a {}-byte secret: {ins} blocks inspected", s.len()));
        report(c, name, &s, (l, sz, off, ins, z));
    });
    let n = m.n(8_000, 160_000);
    m.run("strings", n, |c| {
        let s = secret(c, true);
        let text = String::from_utf8(s.clone()).unwrap();
        let op = c.rng.below(11);
        let name = [
            "string_new", "string_from_str", "string_into_protected", "string_clone", "string_compare", "string_unwind",
            "string_bincode", "string_json", "string_thread", "string_serialize", "string_spare_capacity",
        ][op as usize];
        let enc = bincode::serialize(&text).unwrap();
        let json = serde_json::to_string(&text).unwrap();
        let v = String::from_utf8(owned(&s)).unwrap();
        let mut out = vec![0u8; s.len() * 5 + 64];
        let (_, l, sz, off, ins, z) = watch(&s, || match op {
            0 => drop(ts(ProtectedString::new(v))),
            9 => {
                let p = ts(ProtectedString::new(v));
                bincode::serialize_into(&mut out[..], &p).unwrap();
                serde_json::to_writer(&mut out[..], &p).unwrap();
                drop(p);
            }
            10 => {
                let mut w = String::with_capacity(s.len() * 2 + 3);
                w.push_str(&text);
                drop(ts(ProtectedString::new(w)));
                drop(ts(ProtectedString::new(v)));
            }
            1 => {
                let a = ts(ProtectedString::from(text.as_str()));
                let b: ProtectedString = text.as_str().into();
                assert!(a == b);
                drop(ts(ProtectedString::new(v)));
            }
            2 => {
                let p: Protected = ts(ProtectedString::new(v)).into();
                assert_eq!(p.as_ref(), &s[..]);
            }
            3 => {
                let a = ts(ProtectedString::new(v));
                let b = ts(a.clone());
                drop(a);
                let t: &str = b.as_ref();
                assert_eq!(t, text);
            }
            4 => {
                let a = ts(ProtectedString::new(v));
                let b = ts(ProtectedString::new(text.as_str()));
                assert!(a <= b);
            }
            5 => {
                let r = vmon::guarded(move || {
                    let p = ts(ProtectedString::new(v));
                    let q: &[u8] = p.as_ref();
                    assert!(q.is_empty());
                });
                assert!(r.is_err());
            }
            6 => {
                let p: ProtectedString = bincode::deserialize(&enc).unwrap();
                let t: &str = p.as_ref();
                assert_eq!(t, text);
                drop(p);
                drop(ts(ProtectedString::new(v)));
            }
            7 => {
                if !json.contains('\\') {
                    let p: ProtectedString = serde_json::from_str(&json).unwrap();
                    drop(p);
                }
                drop(ts(ProtectedString::new(v)));
            }
            _ => {
                let p = ts(ProtectedString::new(v));
                std::thread::spawn(move || drop(p)).join().unwrap();
            }
        });
        report(c, name, &s, (l, sz, off, ins, z));
    });
    let n = m.n(6_000, 120_000);
    m.run("keys", n, |c| {
        let sk: [u8; 32] = loop {
            let k: [u8; 32] = c.rng.arr();
            if SK::from_slice(&k).is_ok() && !k.contains(&0) {
                break k;
            }
        };
        let chain: Vec<u8> = (0..32).map(|_| 1 + c.rng.below(255) as u8).collect();
        let ext = ExtendedSK::new(SK::from_slice(&sk).unwrap(), Protected::from(&chain[..]));
        let op = c.rng.below(10);
        let name = ["key_secret", "key_concat", "key_chain_code", "key_drop", "key_derive", "key_public", "kdf_output", "key_export", "key_serialize", "kdf_password"][op as usize];
        let path = KeyPath::default().hardened(c.rng.below(1 << 31) as u32).index(c.rng.below(1 << 31) as u32);
        let (pw, salt) = (c.rng.bytes(20), c.rng.bytes(8));
        let kdf = vref::hash::pbkdf2_256(&pw, &salt, 2);
        let mut out = vec![0u8; 400];
        // What the monitor looks for depends on what the operation handles.
        let deep = KeyPath::from((0..1 + c.rng.below(6)).map(|_| c.rng.u32()).collect::<Vec<_>>());
        let s: Vec<u8> = if op == 6 { kdf.to_vec() } else if op == 9 { pw.clone() } else {
            let mut s = [&sk[..], &chain[..]].concat();
            if op == 4 {
                // The keys on the way, and the last one
                for to in 1..=deep.depth() {
                    let part = KeyPath::from(deep.iter().take(to).map(|i| *i.as_ref()).collect::<Vec<_>>());
                    let k = ext.derive(&part).unwrap();
                    s.extend_from_slice(&k.secret_key.secret_bytes());
                    s.extend_from_slice(k.chain_code().as_ref());
                }
                c.event("levels_derived");
            }
            s
        };
        let (_, l, sz, off, ins, z) = watch(&s, || match op {
            0 => {
                let p = tr(ext.secret());
                assert_eq!(p.as_ref(), &sk[..]);
                drop(p);
                drop(ext);
            }
            1 => {
                let p = tr(ext.concat());
                assert_eq!(p.len(), 64);
                drop(p);
                drop(ext);
            }
            2 => {
                let p = tr(ext.chain_code());
                drop(tr(p.clone()));
                drop(p);
                drop(ext);
            }
            3 => {
                let e2 = ext.clone();
                drop(ext);
                drop(e2);
            }
            4 => {
                let d = ext.derive(&deep).unwrap();
                drop(ext);
                drop(tr(d.secret()));
                drop(tr(d.concat()));
                drop(d);
            }
            5 => {
                let p = ExtendedPK::from_secret_key(&ext);
                drop(ext);
                drop(p);
            }
            8 => {
                bincode::serialize_into(&mut out[..], &ext).unwrap();
                drop(ext);
            }
            9 => {
                drop(tr(pbkdf2_sha256(&pw, &salt, 2)));
                drop(ext);
            }
            7 => {
                // The exported text is the caller's; the raw bytes behind it are not.
                let t = ext.to_slip32(&path).unwrap();
                drop(t);
                drop(ext);
            }
            _ => {
                drop(tr(pbkdf2_sha256(&pw, &salt, 2)));
                drop(ext);
            }
        });
        report(c, name, &s, (l, sz, off, ins, z));
    });
    let n = m.n(1_200, 24_000);
    m.run("master", n, |c| {
        // The chain code of a generated master key, and of a derived one, must go too.
        let seed = c.rng.bytes(64);
        let h = vref::hash::hmac512(b"Bitcoin seed", &[&seed]);
        if h[32..].contains(&0) {
            return;
        }
        let (_, l, sz, off, ins, z) = watch(&h[32..], || {
            let k = MasterKeyGen::new(&seed[..]).generate().unwrap();
            let p = tr(k.chain_code());
            drop(k);
            drop(p);
        });
        report(c, "master_key", &h[32..], (l, sz, off, ins, z));
        // So must whatever was made of the seed, and of the secret itself.
        for (what, s) in [("master_seed", &seed[..]), ("master_secret", &h[..32])] {
            if s.contains(&0) {
                continue;
            }
            let (_, l, sz, off, ins, z) = watch(s, || {
                let k = MasterKeyGen::new(&seed[..]).generate().unwrap();
                drop(tr(k.secret()));
                drop(tr(k.concat()));
                drop(k);
            });
            report(c, what, s, (l, sz, off, ins, z));
        }
    });
}

fn hides(c: &mut Case, what: &str, shown: &str, s: &[u8]) {
    let lower = shown.to_lowercase();
    let hx = hex(s);
    let dec = s.iter().map(|b| b.to_string()).collect::<Vec<_>>();
    let mut bad = vec![];
    let w = 4.min(s.len());
    for k in 0..=s.len() - w {
        let part = &s[k..k + w];
        if w >= 3 {
            if let Ok(t) = std::str::from_utf8(part) {
                if shown.contains(t) {
                    bad.push("text");
                }
            }
        }
        // long enough not to turn up by chance in what may be shown
        let v = 7.min(s.len() - k);
        if v >= 4 && v == 7.min(s.len()) && lower.contains(&hx[2 * k..2 * (k + v)]) {
            bad.push("hex");
        }
        if w >= 3 {
            for sep in [", ", ",", ",\n    ", ",\n        ", " "] {
                if shown.contains(&dec[k..k + w].join(sep)) {
                    bad.push("decimal");
                }
            }
        }
        if !bad.is_empty() {
            break;
        }
    }
    c.event("rendering_checked");
    c.check(bad.is_empty(), &format!("reveals:{what}"), || format!("{what} renders as {shown:?}, which contains the secret as {}", bad[0]));
}

/// A value under every flag a debug rendering can be asked for.
fn renderings(v: &dyn std::fmt::Debug) -> Vec<String> {
    struct Held<'a>(&'a dyn std::fmt::Debug);
    impl std::fmt::Debug for Held<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.debug_map().entry(&self.0, &self.0).finish()
        }
    }
    vec![
        format!("{v:?}"),
        format!("{v:#?}"),
        format!("{v:x?}"),
        format!("{v:X?}"),
        format!("{v:#x?}"),
        format!("{v:1?}"),
        format!("{v:40?}"),
        format!("{v:<4?}"),
        format!("{v:*^60?}"),
        format!("{v:.0?}"),
        format!("{v:.3?}"),
        format!("{v:.500?}"),
        format!("{v:+?}"),
        format!("{v:-?}"),
        format!("{v:08?}"),
        format!("{v:+#012.7x?}"),
        format!("{:?} {:#?} {:9.2?}", Held(v), Held(v), Held(v)),
        format!("{:?} {:02x?} {:5.1?}", Some(v), Ok::<_, ()>(v), [v, v]),
    ]
}

fn containers(m: &mut Mon) {
    m.rule("Random byte and unicode secrets (empty to 4 KiB): every debug rendering ({:?}, {:#?}, inside Option/Vec/struct, and of keys holding them) shows no text, hex or decimal fragment of the secret and is the same for every secret of the same type; content, equality, order and hash agree with the plain bytes; JSON and bincode round trips for both containers and for extended keys give back the same content. Non-trivial: counted by secret.");
    m.require("rendering_checked", 1000);
    m.require("json_round_trip", 500);
    m.require("lengths_differ", 100);
    m.require("bincode_round_trip", 500);
    let n = m.n(60_000, 600_000);
    m.run_par("containers", n, |c| {
        let text: String = match c.rng.below(5) {
            // marks and breaks at the ends
            2 => {
                const W: [&str; 12] = ["\u{feff}", "\n", "\r\n", "\t", " ", "\0", "\"", "\\", "'", "\u{200b}", "\u{85}", "\u{2028}"];
                let k = c.rng.len(12);
                let mut t = c.rng.unicode(k);
                for _ in 0..=c.rng.below(3) {
                    let w = *c.rng.pick(&W);
                    t = if c.rng.bool() { t + w } else { w.to_string() + &t };
                }
                t
            }
            0 => {
                let k = c.rng.len(200);
                c.rng.unicode(k)
            }
            1 => String::from_utf8(secret(c, true)).unwrap(),
            _ => {
                let k = c.rng.len(60);
                c.rng.ascii(k)
            }
        };
        let bytes = if c.rng.bool() { text.clone().into_bytes() } else { secret(c, false) };
        c.nontrivial(&(&text, &bytes));
        let p = Protected::from(&bytes[..]);
        let s = ProtectedString::from(text.as_str());
        for (what, shown) in [
            ("Protected", format!("{p:?}")),
            ("Protected", format!("{p:#?}")),
            ("Protected", format!("{:?}", Some((&p, vec![p.clone()])))),
        ] {
            // A rendering that every secret shares says nothing about any, whatever it has in common with this one.
            let q = Protected::from(if bytes.len() == 7 { vec![0u8; 9] } else { vec![0u8; 7] });
            let common = [format!("{q:?}"), format!("{q:#?}"), format!("{:?}", Some((&q, vec![q.clone()])))];
            if !bytes.is_empty() && !common.contains(&shown) {
                hides(c, what, &shown, &bytes);
            }
        }
        let (pf, sf) = (Protected::from(vec![1u8]), ProtectedString::from("x"));
        let (a, b, a0, b0) = (renderings(&p), renderings(&s), renderings(&pf), renderings(&sf));
        for i in 0..a.len() {
            c.check(a[i] == a0[i], "debug_depends_on_secret", || format!("rendering {i}: {:?} vs {:?}", a[i], a0[i]));
            c.check(b[i] == b0[i], "debug_depends_on_secret", || format!("rendering {i}: {:?} vs {:?}", b[i], b0[i]));
        }
        let fixed = format!("{:?}|{:#?}", Protected::from(vec![1u8]), Protected::from(vec![1u8]));
        c.check(format!("{p:?}|{p:#?}") == fixed, "debug_depends_on_secret", || format!("{p:?} vs {fixed}"));
        let fixed = format!("{:?}|{:#?}", ProtectedString::from("x"), ProtectedString::from("x"));
        c.check(format!("{s:?}|{s:#?}") == fixed, "debug_depends_on_secret", || format!("{s:?} vs {fixed}"));
        // Content
        c.check(p.as_ref() == &bytes[..] && p[..] == bytes[..], "content", || hex(&bytes));
        let st: &str = s.as_ref();
        let sb: &[u8] = s.as_ref();
        c.check(st == text && sb == text.as_bytes(), "string_content", || format!("{st:?} vs {text:?}"));
        // Every way in gives the same string
        let ways = [
            ProtectedString::new(text.as_str()),
            ProtectedString::new(text.clone()),
            ProtectedString::from(text.clone()),
            ProtectedString::from(&text),
            ProtectedString::from(std::borrow::Cow::Borrowed(text.as_str())),
            ProtectedString::from(format_args!("{text}")),
        ];
        for (i, w) in ways.iter().enumerate() {
            let b: &[u8] = w.as_ref();
            c.check(b == text.as_bytes() && *w == s, "string_ways_in", || format!("way {i}: {} for {text:?}", hex(b)));
        }
        if let Some(ch) = text.chars().next() {
            let w = ProtectedString::from(ch);
            let t: &str = w.as_ref();
            c.check(t == ch.to_string(), "string_ways_in", || format!("{ch:?}"));
            let n = bytes.len() as i64 - 20;
            let w = ProtectedString::from(n);
            let t: &str = w.as_ref();
            c.check(t == n.to_string(), "string_ways_in", || format!("{n}"));
        }
        let bytes_in = [Protected::new(&bytes[..]), Protected::new(bytes.clone()), Protected::from(bytes.clone().into_boxed_slice()), Protected::from(std::collections::VecDeque::from(bytes.clone()))];
        c.check(bytes_in.iter().all(|b| *b == p && b[..] == bytes[..]), "ways_in", || hex(&bytes));
        let b = Protected::from(text.as_str());
        c.check(&b[..] == text.as_bytes() && Protected::from(text.clone()) == b, "ways_in", || text.clone());
        let back: Protected = s.clone().into();
        c.check(back.as_ref() == text.as_bytes(), "string_to_bytes", || text.clone());
        // Equality, order, hash follow the content.
        let mut other = bytes.clone();
        match c.rng.below(9) {
            0 => other.push(0),
            // Shorter or longer by amounts that are 0 in few bits, or a repetition of the same content
            3 => {
                let by = *c.rng.pick(&[1usize, 2, 16, 64, 128, 256, 512, 1024, 4096, 65_536, 131_072]);
                let fill = if c.rng.bool() { 0 } else { c.rng.u32() as u8 };
                if c.rng.bool() && other.len() >= by {
                    other.truncate(bytes.len() - by);
                } else if c.rng.bool() {
                    other.resize(bytes.len() + by, fill);
                } else {
                    other = other.iter().copied().cycle().take(if other.is_empty() { 0 } else { bytes.len() + by }).collect();
                }
                c.event("lengths_differ");
            }
            // The same bytes in another order, or two changes that cancel out in a sum or an xor
            4 if other.len() > 1 => {
                let (i, j) = (c.rng.idx(other.len()), c.rng.idx(other.len()));
                match c.rng.below(4) {
                    0 => other.swap(i, j),
                    1 => other.reverse(),
                    2 => {
                        other[i] = other[i].wrapping_add(1);
                        other[j] = other[j].wrapping_sub(1);
                    }
                    _ => {
                        let x = c.rng.u32() as u8;
                        other[i] ^= x;
                        other[j] ^= x;
                    }
                }
                c.event("same_bytes_elsewhere");
            }
            // Only the case of a letter, or only the last byte
            5 if !other.is_empty() => {
                let i = if c.rng.bool() { other.len() - 1 } else { c.rng.idx(other.len()) };
                other[i] = if other[i].is_ascii_alphabetic() { other[i] ^ 0x20 } else { other[i].wrapping_add(1) };
            }
            6 => other = secret(c, false),
            1 if !other.is_empty() => {
                let i = c.rng.idx(other.len());
                other[i] ^= 1 << c.rng.below(8);
            }
            2 => {
                other.pop();
            }
            _ => {}
        }
        let q = Protected::from(&other[..]);
        c.check((p == q) == (bytes == other), "equality", || format!("{} vs {}", hex(&bytes), hex(&other)));
        c.check(p.cmp(&q) == bytes.cmp(&other) && p.partial_cmp(&q) == bytes.partial_cmp(&other), "order", || format!("{} vs {}", hex(&bytes), hex(&other)));
        c.check((q == p) == (bytes == other) && (p != q) == (bytes != other), "equality", || format!("{} vs {}", hex(&bytes), hex(&other)));
        c.check(q.cmp(&p) == other.cmp(&bytes) && (p < q) == (bytes < other) && (p >= q) == (bytes >= other), "order", || format!("{} vs {}", hex(&bytes), hex(&other)));
        c.check(bytes != other || vmon::h64(&p) == vmon::h64(&q), "hash", || format!("{} vs {}", hex(&bytes), hex(&other)));
        if let (Ok(a), Ok(b)) = (std::str::from_utf8(&bytes), std::str::from_utf8(&other)) {
            let (x, y) = (ProtectedString::from(a), ProtectedString::from(b));
            c.check((x == y) == (a == b) && x.cmp(&y) == a.cmp(b) && (a != b || vmon::h64(&x) == vmon::h64(&y)), "string_equality", || format!("{a:?} vs {b:?}"));
        }
        let (sa, sbb) = (ProtectedString::from(text.as_str()), ProtectedString::from(format!("{text}!")));
        c.check(s == sa && s != sbb && s < sbb, "string_equality", || text.clone());
        // Serialization
        let Some(r) = c.nopanic("serde_panic", || text.clone(), || {
            (
                serde_json::to_string(&p).ok().and_then(|j| serde_json::from_str::<Protected>(&j).ok()),
                serde_json::to_string(&s).ok().and_then(|j| serde_json::from_str::<ProtectedString>(&j).ok()),
                bincode::serialize(&p).ok().and_then(|j| bincode::deserialize::<Protected>(&j).ok()),
                bincode::serialize(&s).ok().and_then(|j| bincode::deserialize::<ProtectedString>(&j).ok()),
            )
        }) else { return };
        c.events("json_round_trip", 2);
        c.events("bincode_round_trip", 2);
        c.check(r.0.as_ref() == Some(&p), "json:Protected", || hex(&bytes));
        c.check(r.1.as_ref() == Some(&s), "json:ProtectedString", || format!("{text:?} does not come back from JSON"));
        c.check(r.2.as_ref() == Some(&p), "bincode:Protected", || hex(&bytes));
        c.check(r.3.as_ref() == Some(&s), "bincode:ProtectedString", || text.clone());
    });
    let n = m.n(8_000, 80_000);
    m.run_par("keys", n, |c| {
        let seed = c.rng.bytes(32);
        let k = MasterKeyGen::new(&seed[..]).generate().unwrap();
        let sk = k.secret_key.secret_bytes();
        let chain = k.chain_code().as_ref().to_vec();
        c.nontrivial(&seed);
        let mut all = renderings(&k);
        all.push(format!("{:?}", Some(vec![k.clone()])));
        all.extend(renderings(&ExtendedPK::from_secret_key(&k)));
        for shown in all {
            hides(c, "ExtendedSK.secret", &shown, &sk);
            hides(c, "ExtendedSK.chain", &shown, &chain);
        }
        let j = serde_json::to_string(&k).ok().and_then(|j| serde_json::from_str::<ExtendedSK>(&j).ok());
        c.check(j.as_ref() == Some(&k), "json:ExtendedSK", || hex(&seed));
        let b = bincode::serialize(&k).ok().and_then(|j| bincode::deserialize::<ExtendedSK>(&j).ok());
        c.check(b.as_ref() == Some(&k), "bincode:ExtendedSK", || hex(&seed));
        let pk = ExtendedPK::from_secret_key(&k);
        let b = bincode::serialize(&pk).ok().and_then(|j| bincode::deserialize::<ExtendedPK>(&j).ok());
        c.check(b.as_ref() == Some(&pk), "bincode:ExtendedPK", || hex(&seed));
        let path = KeyPath::from(vec![c.rng.u32(), c.rng.u32()]);
        let b = bincode::serialize(&path).ok().and_then(|j| bincode::deserialize::<KeyPath>(&j).ok());
        c.check(b.as_ref() == Some(&path), "bincode:KeyPath", || path.to_string());
    });
}

fn main() {
    let _ = &MINE;
    vmon::main(&[("C10", erasure), ("C11", containers)])
}
