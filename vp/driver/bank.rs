// Concrete runs of the example bank against an oracle in plain Rust: sequences of transfers, then many threads at once.
use crate::example::BankSpec_t::{Input, Request};
use crate::example::SimpleBank_v::SimpleBank;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Duration;
use vstd::prelude::Tracked;

static CASES: AtomicU64 = AtomicU64::new(0);
static FAILS: AtomicU64 = AtomicU64::new(0);

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { let mut x = self.0; x ^= x << 13; x ^= x >> 7; x ^= x << 17; self.0 = x; x.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() >> 16) as usize % n } }
}

fn amount(r: &mut Rng, held: &[u32], from: usize, to: usize) -> u32 {
    let f = held.get(from).copied().unwrap_or(7); let t = held.get(to).copied().unwrap_or(7);
    match r.below(9) {
        0 => 0, 1 => f, 2 => f.wrapping_add(1), 3 => u32::MAX - t, 4 => (u32::MAX - t).wrapping_add(1), 5 => 1, 6 => u32::MAX,
        7 => (r.next() as u32) % (f / 2 + 1), _ => r.next() as u32,
    }
}

fn ask(b: &SimpleBank, from: usize, to: usize, amt: u32, id: u64) -> (bool, u64) {
    let (reply, _) = b.maybe_transfer(Request { input: Input { from, to, amt }, id }, Tracked::assume_new());
    (reply.output.succeeded, reply.id)
}

fn sequence(seed: u64, n: usize, each: u32, steps: usize) -> Result<(), String> {
    let mut r = Rng(seed | 1);
    let b = SimpleBank::_new(n, each);
    let mut held = vec![each; n];
    let mut log = String::new();
    for s in 0..steps {
        let from = r.below(n + 2); let to = r.below(n + 2);
        let amt = amount(&mut r, &held, from, to); let id = r.next();
        let want = from != to && from < n && to < n && held[from] >= amt && held[to] <= u32::MAX - amt;
        if want { held[from] -= amt; held[to] += amt; }
        log.push_str(&format!(" {}->{}:{}", from, to, amt));
        let (ok, rid) = ask(&b, from, to, amt, id);
        if ok != want { return Err(format!("accounts {} of {}, transfers{}: the last was {}", n, each, log, if ok { "done but could not be" } else { "refused without cause" })); }
        if rid != id { return Err(format!("request {} answered with identifier {}", id, rid)); }
        for i in 0..n {
            let v = b.check_value(i);
            if v != held[i] as u64 { return Err(format!("accounts {} of {}, transfers{}: account {} holds {} instead of {}", n, each, log, i, v, held[i])); }
        }
    }
    Ok(())
}

fn together(seed: u64, n: usize, each: u32, threads: usize, steps: usize) -> Result<(), String> {
    let b = Arc::new(SimpleBank::_new(n, each));
    let mut hs = Vec::new();
    for t in 0..threads {
        let b = b.clone();
        hs.push(std::thread::spawn(move || -> Result<Vec<i64>, String> {
            let mut r = Rng((seed ^ (t as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15)) | 1);
            let mut net = vec![0i64; n];
            for s in 0..steps {
                let from = r.below(n + 1); let to = r.below(n + 1);
                let amt = (r.next() as u32) % (each / 2 + 2); let id = r.next();
                let (ok, rid) = ask(&b, from, to, amt, id);
                if rid != id { return Err(format!("request {} answered with identifier {}", id, rid)); }
                if ok {
                    if from >= n || to >= n || from == to { return Err(format!("transfer {}->{} done in a bank of {}", from, to, n)); }
                    net[from] -= amt as i64; net[to] += amt as i64;
                }
            }
            Ok(net)
        }));
    }
    let mut held = vec![each as i64; n];
    for h in hs {
        let net = h.join().map_err(|_| "a thread panicked".to_string())??;
        for i in 0..n { held[i] += net[i]; }
    }
    let mut total = 0u64;
    for i in 0..n {
        let v = b.check_value(i); total += v;
        if v as i64 != held[i] { return Err(format!("{} threads, {} accounts of {}: account {} holds {}, its transfers amount to {}", threads, n, each, i, v, held[i])); }
    }
    let want = each as u64 * n as u64;
    if total != want { return Err(format!("{} threads: the total is {}, not {}", threads, total, want)); }
    if b.get_total() != want { return Err(format!("get_total gives {}, not {}", b.get_total(), want)); }
    Ok(())
}

fn case<F: FnOnce() -> Result<(), String> + Send + 'static>(label: String, f: F) {
    CASES.fetch_add(1, Ordering::SeqCst);
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().map(|s| s.as_str()).or(e.downcast_ref::<&str>().copied()).unwrap_or("?"))),
        };
        let _ = tx.send(r);
    });
    let m = match rx.recv_timeout(Duration::from_secs(60)) { Ok(Ok(())) => return, Ok(Err(m)) => m, Err(_) => "does not come to an end (a lock is still held)".to_string() };
    if FAILS.fetch_add(1, Ordering::SeqCst) < 6 { println!("FAIL {} :: {}", label, m); }
    if FAILS.load(Ordering::SeqCst) > 2 { finish(); }
}
fn finish() { println!("CASES {} FAILS {}", CASES.load(Ordering::SeqCst), FAILS.load(Ordering::SeqCst)); std::process::exit(if FAILS.load(Ordering::SeqCst) > 0 { 1 } else { 0 }); }

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(1);
    let k: usize = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(4);
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for i in 0..k {
        for (n, each) in [(0usize, 5u32), (1, 9), (2, 15), (3, 100), (4, u32::MAX), (4, u32::MAX - 3), (5, 1 << 31), (3, 0)] {
            let s = r.next();
            case(format!("sequence seed {} accounts {} each {}", s, n, each), move || sequence(s, n, each, 24));
        }
    }
    for i in 0..(k / 20 + 2) {
        let s = r.next(); let n = 2 + (i % 4);
        case(format!("threads seed {} accounts {}", s, n), move || together(s, n, 1000, 8, 400));
    }
    finish();
}
