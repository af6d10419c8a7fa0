//! Runs single parts of backpak under stress and says what it saw.
//! Exit 0: nothing wrong; 2: a monitor saw a violation ("WRONG ..." on stdout).

use std::collections::BTreeMap;
use std::fmt;
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Barrier, Mutex, OnceLock};
use std::thread;
use std::time::{Duration, Instant};

use backpak::{chunk, concurrently, progress, rcu::Rcu, semaphored};
use camino::Utf8PathBuf;

fn wrong(what: impl fmt::Display) -> ! {
    println!("WRONG {what}");
    std::process::exit(2);
}

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
}

/// Dawdles in one of several ways.
fn dawdle(r: &mut Rng) {
    match r.below(8) {
        0 | 1 => (),
        2 | 3 => thread::yield_now(),
        4..=6 => (0..r.below(400)).for_each(|_| std::hint::spin_loop()),
        _ if cfg!(miri) => thread::yield_now(),
        _ => thread::sleep(Duration::from_micros(r.below(300))),
    }
}

/// Waits for something to come true; false after a long time.
fn eventually(f: impl Fn() -> bool) -> bool {
    let t = Instant::now();
    let limit = Duration::from_secs(if cfg!(miri) { 100000 } else { 20 });
    let mut turns = 0;
    while !f() {
        turns += 1;
        if t.elapsed() > limit || cfg!(miri) && turns > 20000 {
            return false;
        }
        if cfg!(miri) { thread::yield_now() } else { thread::sleep(Duration::from_micros(50)) }
    }
    true
}

// ------------------------------------------------------------- semaphore

/// Threads take and give back permits at random.
fn sem_churn(threads: usize, permits: u32, ops: usize, seed: u64) {
    let count = AtomicU32::new(permits);
    let holders = AtomicU32::new(0);
    let most = AtomicU32::new(0);
    let done = AtomicU64::new(0);
    let over = AtomicBool::new(false);
    let slept = AtomicU64::new(0);
    thread::scope(|s| {
        let (count, holders, most, done, over, slept) = (&count, &holders, &most, &done, &over, &slept);
        // A watchdog of our own, outside of the scope: if this hangs, nobody else would tell.
        s.spawn(move || {
            let mut last = (0, Instant::now());
            while !over.load(Acquire) {
                let d = done.load(Relaxed);
                if d != last.0 {
                    last = (d, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(if cfg!(miri) { 100000 } else { 30 }) {
                    wrong(format!("nobody got a permit for 30 s; {} are free, {} held, {d} were given", count.load(Relaxed), holders.load(Relaxed)));
                }
                if cfg!(miri) { thread::yield_now() } else { thread::sleep(Duration::from_millis(2)) }
            }
        });
        let ts: Vec<_> = (0..threads)
            .map(|t| {
                s.spawn(move || {
                    let mut r = Rng(seed ^ ((t as u64) << 40));
                    for _ in 0..ops {
                        if count.load(Relaxed) == 0 {
                            slept.fetch_add(1, Relaxed);
                        }
                        let g = semaphored::dec(count);
                        let h = holders.fetch_add(1, SeqCst) + 1;
                        if h > permits {
                            wrong(format!("{h} hold a semaphore of {permits}"));
                        }
                        most.fetch_max(h, Relaxed);
                        dawdle(&mut r);
                        holders.fetch_sub(1, SeqCst);
                        drop(g);
                        done.fetch_add(1, Relaxed);
                        dawdle(&mut r);
                    }
                })
            })
            .collect();
        for t in ts {
            t.join().unwrap();
        }
        over.store(true, Release);
    });
    let left = count.load(SeqCst);
    if left != permits {
        wrong(format!("{left} of {permits} permits are left at the end"));
    }
    println!("most={} waits={} ops={}", most.load(Relaxed), slept.load(Relaxed), done.load(Relaxed));
}

/// Everybody sleeps; some permits are given back at once: as many have to wake, though nobody else gives any back.
fn sem_wake(permits: usize, waiters: usize, rounds: usize, seed: u64) {
    let mut r = Rng(seed);
    let mut woken = 0;
    for round in 0..rounds {
        let count = AtomicU32::new(permits as u32);
        let count = &count;
        let got = AtomicU32::new(0);
        let got = &got;
        let go = AtomicBool::new(false);
        let go = &go;
        let started = AtomicU32::new(0);
        let started = &started;
        thread::scope(|s| {
            let mut held: Vec<_> = (0..permits).map(|_| semaphored::dec(count)).collect();
            for _ in 0..waiters {
                s.spawn(move || {
                    started.fetch_add(1, SeqCst);
                    let g = semaphored::dec(count);
                    got.fetch_add(1, SeqCst);
                    if !eventually(|| go.load(Acquire)) {
                        wrong("the test is stuck");
                    }
                    drop(g);
                });
            }
            eventually(|| started.load(SeqCst) as usize == waiters);
            if r.below(2) == 0 && !cfg!(miri) {
                thread::sleep(Duration::from_micros(r.below(1500)));
            } else {
                for _ in 0..r.below(30) {
                    thread::yield_now();
                }
            }
            let k = 1 + r.below(permits as u64) as usize;
            let threads = r.below(3) == 0;
            let rest = held.split_off(k);
            if got.load(SeqCst) != 0 {
                wrong("a permit was given while there was none");
            }
            if threads {
                let b = Barrier::new(k);
                thread::scope(|s| {
                    for g in held {
                        s.spawn(|| {
                            b.wait();
                            drop(g);
                        });
                    }
                });
            } else {
                drop(held);
            }
            let want = k.min(waiters) as u32;
            if !eventually(|| got.load(SeqCst) >= want) {
                wrong(format!("round {round}: {k} permits were given back, {waiters} threads wait, {} woke; {} permits are free", got.load(SeqCst), count.load(SeqCst)));
            }
            if got.load(SeqCst) > k as u32 {
                wrong(format!("{} got one of {k} permits", got.load(SeqCst)));
            }
            woken += want as u64;
            go.store(true, Release);
            drop(rest);
        });
        if count.load(SeqCst) as usize != permits {
            wrong(format!("{} of {permits} permits are left at the end", count.load(SeqCst)));
        }
    }
    println!("woken={woken} rounds={rounds}");
}

// ------------------------------------------------------------- RCU

static DROPS: OnceLock<Vec<AtomicU8>> = OnceLock::new();

struct Value {
    n: usize,
    text: String,
    check: Box<u64>,
}

impl Value {
    fn new(n: usize) -> Self {
        Value { n, text: format!("value {n}"), check: Box::new((n as u64).wrapping_mul(0x9E3779B97F4A7C15)) }
    }
    fn intact(&self) -> bool {
        *self.check == (self.n as u64).wrapping_mul(0x9E3779B97F4A7C15)
            && self.text == format!("value {}", self.n)
            && DROPS.get().unwrap()[self.n].load(SeqCst) == 0
    }
}

impl Drop for Value {
    fn drop(&mut self) {
        if DROPS.get().unwrap()[self.n].fetch_add(1, SeqCst) != 0 {
            wrong(format!("value {} was freed twice", self.n));
        }
        *self.check = 0xDEAD;
        self.text.clear();
        self.text.push_str("freed");
    }
}

impl Default for Value {
    fn default() -> Self {
        Value::new(0)
    }
}

impl fmt::Display for Value {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.text)
    }
}

fn rcu(readers: usize, updates: usize, seed: u64) {
    DROPS.set((0..=updates).map(|_| AtomicU8::new(0)).collect()).unwrap();
    let reads = AtomicU64::new(0);
    let seen = Mutex::new(BTreeMap::<usize, u64>::new());
    {
        let it = if seed % 2 == 0 { Rcu::default() } else { Rcu::new(Value::new(0)) };
        let latest = AtomicU64::new(0);
        let over = AtomicBool::new(false);
        thread::scope(|s| {
            let (it, latest, over, reads, seen) = (&it, &latest, &over, &reads, &seen);
            for t in 0..readers {
                s.spawn(move || {
                    let mut r = Rng(seed ^ ((t as u64 + 1) << 40));
                    let mut last = 0;
                    let mut mine = BTreeMap::new();
                    let mut held = vec![];
                    loop {
                        let end = over.load(Acquire);
                        let floor = latest.load(SeqCst) as usize;
                        let b = it.borrow();
                        if !b.intact() {
                            wrong(format!("a reader saw value {} torn or freed", b.n));
                        }
                        let n = b.n;
                        if n < last || n < floor {
                            wrong(format!("a reader saw value {n} after {last}; {floor} was published before"));
                        }
                        last = n;
                        *mine.entry(n).or_insert(0u64) += 1;
                        reads.fetch_add(1, Relaxed);
                        dawdle(&mut r);
                        if !b.intact() || b.n != n {
                            wrong(format!("value {n} changed while it was borrowed"));
                        }
                        if r.below(5) == 0 {
                            let text = b.to_string();
                            if text != format!("value {n}") {
                                wrong(format!("value {n} shows as {text}"));
                            }
                        }
                        // Some are kept a while longer.
                        if r.below(20) == 0 {
                            held.push((n, b));
                        }
                        if held.len() > 3 || end {
                            for (n, b) in held.drain(..) {
                                if !b.intact() || b.n != n {
                                    wrong(format!("value {n} changed while it was borrowed long"));
                                }
                            }
                        }
                        if end {
                            if n != updates {
                                wrong(format!("value {n} is not the last one, {updates}"));
                            }
                            break;
                        }
                    }
                    for (k, v) in mine {
                        *seen.lock().unwrap().entry(k).or_default() += v;
                    }
                });
            }
            let mut r = Rng(seed);
            for n in 1..=updates {
                it.update(Value::new(n));
                latest.store(n as u64, SeqCst);
                if r.below(4) == 0 {
                    dawdle(&mut r);
                }
            }
            over.store(true, Release);
        });
        let b = it.borrow();
        if b.n != updates || !b.intact() {
            wrong("the last value is not there at the end");
        }
    }
    // Give whoever reclaims old values the chance to.
    let freed = || DROPS.get().unwrap().iter().filter(|d| d.load(SeqCst) == 1).count();
    let kick = Rcu::new(0u8);
    for k in 0..200000 {
        if freed() == updates + 1 {
            break;
        }
        kick.update((k % 251) as u8);
        if k % 1000 == 0 {
            thread::yield_now();
        }
    }
    let distinct = seen.lock().unwrap().len();
    println!("reads={} distinct={distinct} updates={updates} freed={}", reads.load(Relaxed), freed());
    if freed() != updates + 1 {
        wrong(format!("{} of {} values were freed", freed(), updates + 1));
    }
}

// ------------------------------------------------------------- concurrently

fn conc(kind: &str, n: usize, limit: usize, seed: u64, fail: Option<usize>) {
    let ran: Vec<AtomicU8> = (0..n).map(|_| AtomicU8::new(0)).collect();
    let (now, most) = (AtomicU32::new(0), AtomicU32::new(0));
    let meet = Barrier::new(n.max(1));
    {
        let (ran, now, most, meet) = (&ran, &now, &most, &meet);
        let work = move |k: usize| -> anyhow::Result<usize> {
            let mut r = Rng(seed ^ ((k as u64) << 32));
            let h = now.fetch_add(1, SeqCst) + 1;
            most.fetch_max(h, SeqCst);
            if h as usize > limit {
                wrong(format!("{h} run at once, not {limit}"));
            }
            if kind == "named" && fail.is_none() {
                meet.wait(); // They wait for each other: all have to run.
            }
            dawdle(&mut r);
            if let Some(f) = fail {
                if f == k {
                    anyhow::bail!("job {k} failed as told");
                }
                if kind == "named" || k > f {
                    // Never comes to an end by itself.
                    thread::sleep(Duration::from_secs(100000));
                }
            }
            ran[k].fetch_add(1, SeqCst);
            now.fetch_sub(1, SeqCst);
            Ok(k * 3)
        };
        match kind {
            "plain" => concurrently::concurrently((0..n).map(|k| move || work(k).map(drop))),
            "named" => concurrently::named_concurrently((0..n).map(|k| (format!("job-{k}"), move || work(k).map(drop)))),
            "map" => {
                let mut v = concurrently::map_concurrently((0..n).map(|k| move || work(k)));
                v.sort_unstable();
                if v != (0..n).map(|k| k * 3).collect::<Vec<_>>() {
                    wrong(format!("the results are {v:?}"));
                }
            }
            _ => panic!(),
        }
    }
    if fail.is_some() {
        wrong("the error of a job was lost");
    }
    if let Some(k) = ran.iter().position(|r| r.load(SeqCst) != 1) {
        wrong(format!("job {k} ran {} times", ran[k].load(SeqCst)));
    }
    println!("ran={n} most={}", most.load(SeqCst));
}

// ------------------------------------------------------------- progress

fn progress_(seed: u64) {
    use std::io::{Read, Write};
    let mut r = Rng(seed);
    let n = AtomicU64::new(0);
    let m = AtomicU64::new(0);
    let shown = Mutex::new(vec![]);
    let total = r.below(300000);
    let began = Instant::now();
    thread::scope(|s| {
        let (n, m, shown) = (&n, &m, &shown);
        let t = progress::ProgressThread::spawn(s, move |i| {
            shown.lock().unwrap().push((i, n.load(Acquire), m.load(Acquire)));
            Ok(())
        });
        let src: Vec<u8> = (0..total).map(|i| i as u8).collect();
        let mut rd = progress::AtomicCountRead::new(&src[..], n);
        let mut wr = progress::AtomicCountWrite::new(vec![], m);
        let mut buf = vec![0; 1 + r.below(9000) as usize];
        loop {
            let k = rd.read(&mut buf).unwrap();
            if k == 0 {
                break;
            }
            wr.write_all(&buf[..k]).unwrap();
            if r.below(40) == 0 {
                dawdle(&mut r);
            }
        }
        if wr.get_ref() != &src {
            wrong("other bytes came through");
        }
        t.join();
    });
    let shown = shown.into_inner().unwrap();
    if shown.last().map(|l| (l.1, l.2)) != Some((total, total)) {
        wrong(format!("the last round showed {:?}, not {total}", shown.last()));
    }
    if shown.iter().enumerate().any(|(k, l)| l.0 != k) || shown.windows(2).any(|w| w[0].1 > w[1].1) {
        wrong(format!("rounds went backwards: {shown:?}"));
    }
    println!("rounds={} ms={}", shown.len(), began.elapsed().as_millis());
}

// ------------------------------------------------------------- chunks

fn cuts(b: &[u8]) -> Vec<usize> {
    fastcdc::v2020::FastCDC::new(b, 512 << 10, 1 << 20, 8 << 20).map(|c| c.length).collect()
}

/// Chunks some files (several times at once), and says what came out.
fn chunks(threads: usize, seed: u64, files: &[String]) {
    let out = Mutex::new(BTreeMap::new());
    thread::scope(|s| {
        for t in 0..threads {
            let out = &out;
            s.spawn(move || {
                let mut r = Rng(seed ^ ((t as u64) << 40));
                let mut order: Vec<_> = (0..files.len()).collect();
                for i in (1..order.len()).rev() {
                    order.swap(i, r.below(i as u64 + 1) as usize);
                }
                for f in order {
                    let p = Utf8PathBuf::from(&files[f]);
                    let all = std::fs::read(&p).unwrap();
                    // Somebody may lose interest.
                    if r.below(6) == 0 {
                        let mut it = chunk::chunk_file(&p).unwrap();
                        for _ in 0..r.below(4) {
                            it.next();
                        }
                    }
                    let mut at = 0;
                    let mut got = vec![];
                    let mut kept = vec![];
                    for b in chunk::chunk_file(&p).unwrap() {
                        let n = b.bytes().len();
                        if all.get(at..at + n) != Some(b.bytes()) {
                            wrong(format!("{p}: chunk {} at {at} holds other bytes", got.len()));
                        }
                        if b.kind != backpak::blob::Type::Chunk {
                            wrong(format!("{p}: chunk {} isn't one", got.len()));
                        }
                        at += n;
                        got.push((n, b.id.to_string()));
                        if r.below(3) == 0 {
                            kept.push((at - n, b));
                        }
                        if r.below(10) == 0 {
                            dawdle(&mut r);
                        }
                    }
                    if at != all.len() {
                        wrong(format!("{p}: {at} of {} bytes are in chunks", all.len()));
                    }
                    // Chunks stay what they are after the file is through.
                    for (o, b) in kept {
                        if b.bytes() != &all[o..o + b.bytes().len()] {
                            wrong(format!("{p}: a chunk changed later"));
                        }
                    }
                    let want = cuts(&all);
                    let lens: Vec<_> = got.iter().map(|g| g.0).collect();
                    let text = format!("{}|{}", got.iter().map(|g| format!("{}:{}", g.0, g.1)).collect::<Vec<_>>().join(" "), if lens == want { "as FastCDC" } else { "otherwise" });
                    if let Some(prev) = out.lock().unwrap().insert(f, text.clone())
                        && prev != text
                    {
                        wrong(format!("{p}: chunked as {prev} and as {text}"));
                    }
                }
            });
        }
    });
    for (f, t) in out.into_inner().unwrap() {
        println!("{f}|{t}");
    }
}

// ------------------------------------------------------------- codecs

/// Hashes, names, trees, indexes, manifests: there and back, and from damaged bytes.
fn codec(seed: u64, rounds: u64) {
    use backpak::{file_util, hashing::*, index, pack, snapshot, tree};
    use std::io::{Read, Write};

    let mut r = Rng(seed);
    let (mut same, mut refused, mut others) = (0, 0, 0);
    fn decoded<T: serde::de::DeserializeOwned + serde::Serialize>(b: &[u8]) -> Option<Vec<u8>> {
        let t: T = ciborium::from_reader(b).ok()?;
        let mut back = vec![];
        ciborium::into_writer(&t, &mut back).unwrap();
        Some(back)
    }
    for _ in 0..rounds {
        let len = r.below(70) as usize;
        let bytes: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
        let id = ObjectId::hash(&bytes);
        let mut rd = HashingReader::new(&bytes[..]);
        let mut some = vec![0; 1 + r.below(90) as usize];
        while rd.read(&mut some).unwrap() > 0 {}
        let mut wr = HashingWriter::new(vec![]);
        wr.write_all(&bytes).unwrap();
        let (wid, w) = wr.finalize();
        if rd.finalize().0 != id || wid != id || w != bytes {
            wrong("hashes differ by how they're made");
        }
        let name = id.to_string();
        if name.parse::<ObjectId>().unwrap() != id || name.len() != 45 {
            wrong(format!("{name} isn't itself"));
        }
        let mut bad = name.clone().into_bytes();
        let at = r.below(bad.len() as u64 + 1) as usize;
        match r.below(3) {
            0 => bad.truncate(at),
            1 => bad.insert(at, r.next() as u8 & 0x7f),
            _ => bad[at.min(44)] = r.next() as u8 & 0x7f,
        }
        if let Ok(s) = String::from_utf8(bad) {
            if let Ok(i) = s.parse::<ObjectId>() {
                if i.to_string() != s {
                    wrong(format!("{s} is read as {i}"));
                }
            }
        }
        if file_util::check_magic(&mut &bytes[..], b"MKBAKPAK").is_ok() {
            wrong("magic in noise");
        }

        // {name: {"tree" or "chunks" or "symlink": ..., "metadata": {...}}}
        let mut t = vec![0xa0 + 1u8];
        t.extend([0x61, b'a' + r.below(26) as u8]);
        t.push(0xbf);
        let mode: u16 = match r.below(3) {
            0 => {
                t.extend(b"\x66chunks\x81\x58\x1c");
                t.extend(&name.as_bytes()[..28]);
                0o100644
            }
            1 => {
                t.extend(b"\x64tree\x58\x1c");
                t.extend(&name.as_bytes()[..28]);
                0o040755
            }
            _ => {
                t.extend(b"\x67symlink\x62.x");
                0o120777
            }
        };
        t.extend(b"\x68metadata\xa6\x64type\x65posix\x64mode\x19");
        t.extend(mode.to_be_bytes());
        t.extend(b"\x63uid\x00\x63gid\x18\xff\x65atime\x1b");
        t.extend((r.next() >> 2).to_be_bytes());
        t.extend(b"\x65mtime\x3b");
        t.extend((r.next() >> 2).to_be_bytes());
        t.push(0xff);
        match decoded::<tree::Tree>(&t) {
            Some(b) if b == t => same += 1,
            b => wrong(format!("a tree {t:?} came back as {b:?}")),
        }
        for _ in 0..1 + r.below(3) {
            let at = r.below(t.len() as u64) as usize;
            match r.below(4) {
                0 => t[at] = r.next() as u8,
                1 => t[at] ^= 1 << r.below(8),
                2 => t.truncate(at.max(1)),
                _ => t.insert(at, r.next() as u8),
            }
        }
        let all = [decoded::<tree::Tree>(&t), decoded::<index::Index>(&t), decoded::<pack::PackManifest>(&t), decoded::<snapshot::Snapshot>(&t), decoded::<ObjectId>(&t)];
        for d in all {
            match d {
                None => refused += 1,
                Some(_) => others += 1,
            }
        }
    }
    println!("same={same} refused={refused} read={others}");
}

fn main() {

    let a: Vec<String> = std::env::args().skip(1).collect();
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    match a[0].as_str() {
        "sem-churn" => sem_churn(n(1) as usize, n(2) as u32, n(3) as usize, n(4)),
        "sem-wake" => sem_wake(n(1) as usize, n(2) as usize, n(3) as usize, n(4)),
        "rcu" => rcu(n(1) as usize, n(2) as usize, n(3)),
        "conc" => conc(&a[1], n(2) as usize, n(3) as usize, n(4), a.get(5).map(|f| f.parse().unwrap())),
        "progress" => progress_(n(1)),
        "chunks" => chunks(n(1) as usize, n(2), &a[3..]),
        "codec" => codec(n(1), n(2)),
        "nothing" => (),
        _ => panic!("what?"),
    }

}


