use ib::*;
use std::collections::HashMap;
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use subject::batcher::Batcher;
use subject::sequential_thread_pool::SequentialThreadPool;
use subject::thread_pool::ThreadPool;

const LIMIT: Duration = Duration::from_secs(25);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    threads: u8,
    /// per item: cost in units (free running) or rank (ordered finish)
    items: Vec<u16>,
    /// workers finish in the order of the ranks, as far as the number of threads allows
    ordered: bool,
    /// pause of the consumer, in microseconds, every so many results
    consumer: u16,
    /// pause of the producer
    producer: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Late {
    threads: u8,
    /// per burst: whether and how long (ms) to wait before it
    items: Vec<(bool, u16)>,
    burst: u8,
    ordered: bool,
}

/// Lets the items in flight finish in the order of their ranks.
struct Gate {
    state: Mutex<(Vec<usize>, usize, HashMap<usize, ()>)>,
    wake: Condvar,
    ranks: Vec<u16>,
    threads: usize,
}

impl Gate {
    fn pass(&self, i: usize) {
        let mut g = self.state.lock().unwrap();
        g.0.push(i);
        self.wake.notify_all();
        let end = Instant::now() + Duration::from_millis(20);
        loop {
            if g.2.remove(&i).is_some() {
                return;
            }
            let left = self.ranks.len() - g.1;
            let full = g.0.len() >= self.threads.min(left);
            // parallelism is not promised: give up waiting for the others after a while
            if full || Instant::now() > end {
                if let Some((at, _)) = g.0.iter().enumerate().min_by_key(|(_, x)| (self.ranks[**x], **x)) {
                    let x = g.0.swap_remove(at);
                    g.1 += 1;
                    g.2.insert(x, ());
                    self.wake.notify_all();
                    continue;
                }
            }
            g = self.wake.wait_timeout(g, Duration::from_millis(5)).unwrap().0;
        }
    }
}

fn busy(units: u16) {
    match units % 4 {
        0 => {}
        1 => std::thread::yield_now(),
        2 => {
            let end = Instant::now() + Duration::from_micros(units as u64 % 60);
            while Instant::now() < end {
                std::hint::spin_loop();
            }
        }
        _ => std::thread::sleep(Duration::from_micros(units as u64 % 300)),
    }
}

fn result(i: usize, x: u16) -> (usize, String) {
    (i, format!("{}-{}", i * 7 + 1, x))
}

/// Everything the pool yields, or a stall.
fn drain(p: &Plan, ordered_pool: bool) -> R<Vec<(usize, String)>> {
    let (tx, rx) = mpsc::channel();
    let p = p.clone();
    std::thread::spawn(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let gate = Arc::new(Gate { state: Mutex::new((vec![], 0, HashMap::new())), wake: Condvar::new(), ranks: p.items.clone(), threads: p.threads as usize });
            let ordered = p.ordered;
            let f = move |(i, x): (usize, u16)| {
                if ordered {
                    gate.pass(i);
                } else {
                    busy(x);
                }
                result(i, x)
            };
            let producer = p.producer;
            let inputs = p.items.clone().into_iter().enumerate().map(move |v| {
                if producer > 0 && v.0 as u16 % 3 == 0 {
                    std::thread::sleep(Duration::from_micros(producer as u64));
                }
                v
            });
            let mut out = Vec::new();
            let limit = p.items.len() * 2 + 10;
            let mut take = |it: &mut dyn Iterator<Item = (usize, String)>| {
                while let Some(v) = it.next() {
                    out.push(v);
                    if out.len() > limit {
                        return;
                    }
                    if p.consumer > 0 && out.len() % 4 == 0 {
                        std::thread::sleep(Duration::from_micros(p.consumer as u64));
                    }
                }
                // the end stays the end
                if let Some(v) = it.next() {
                    out.push(v);
                }
            };
            if ordered_pool {
                take(&mut SequentialThreadPool::new(p.threads as usize, f, inputs));
            } else {
                take(&mut ThreadPool::new(p.threads as usize, f, inputs));
            }
            out
        }));
        let _ = tx.send(r.map_err(|p| message(&*p)));
    });
    match rx.recv_timeout(LIMIT) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(m)) => bad(format!("the pool panicked: {}", m)),
        Err(_) => Err(Fail::Stall(format!("the pool did not end within {:?}", LIMIT))),
    }
}

fn judge(p: &Plan, info: &mut Info) -> R {
    let want: Vec<_> = p.items.iter().enumerate().map(|(i, x)| result(i, *x)).collect();
    let got = drain(p, true)?;
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return bad(format!("ordered pool: {} results for {} items; position {} has {:?} instead of {:?}", got.len(), want.len(), at, got.get(at), want.get(at)));
    }
    let mut got = drain(p, false)?;
    if got != want {
        info.label("results arrived out of order");
    }
    got.sort();
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return bad(format!("pool: {} results for {} items; sorted, position {} has {:?} instead of {:?}", got.len(), want.len(), at, got.get(at), want.get(at)));
    }
    Ok(())
}

fn check(k: &Check) {
    bb::wide::c19(k);
    k.watch(120);
    k.rule("pools: at least two threads and more items than threads | batches: more elements than the batch size");
    k.assume("the work function returns (a panic in it ends that worker)");
    let s = |items: std::ops::Range<usize>| {
        (1u8..13, prop::collection::vec(any::<u16>(), items), prop_oneof![3 => Just(true), 1 => Just(false)], prop_oneof![3 => Just(0u16), 1 => 1u16..400], prop_oneof![3 => Just(0u16), 1 => 1u16..200])
            .prop_map(|(threads, items, ordered, consumer, producer)| Plan { threads, items, ordered, consumer, producer })
    };
    k.section("pools", k.n(12000, 400000), 16, || s(0..70), |p: &Plan, info: &mut Info| {
        info.nontrivial = p.threads > 1 && p.items.len() > p.threads as usize;
        info.label(if p.ordered { "finish order forced" } else { "free running" });
        if p.items.is_empty() {
            info.label("no items");
        }
        judge(p, info)
    });
    // one slow item in front, thousands behind it
    let s = || {
        (2u8..9, 2000usize..12000, prop::collection::vec((any::<u16>(), 1u8..30), 1..4), any::<bool>()).prop_map(|(threads, n, slow, last)| (threads, n, slow, last))
    };
    k.section("stragglers", k.n(60, 1500), 8, s, |v: &(u8, usize, Vec<(u16, u8)>, bool), info: &mut Info| {
        let (threads, n, slow, first) = v;
        let (tx, rx) = mpsc::channel();
        let (threads, n, slow, first) = (*threads as usize, *n, slow.clone(), *first);
        info.nontrivial = true;
        std::thread::spawn(move || {
            let f = move |i: usize| {
                if first && i == 0 {
                    std::thread::sleep(Duration::from_millis(60));
                }
                if let Some((_, ms)) = slow.iter().take(threads - 1).find(|(at, _)| *at as usize % n == i) {
                    std::thread::sleep(Duration::from_millis(*ms as u64));
                }
                i * 3
            };
            let _ = tx.send(SequentialThreadPool::new(threads, f, 0..n).collect::<Vec<usize>>());
        });
        let got = rx.recv_timeout(LIMIT).map_err(|_| Fail::Stall("the pool did not end".into()))?;
        if got.len() != n || got.iter().enumerate().any(|(i, x)| *x != i * 3) {
            return bad(format!("{} results for {} items, or out of order", got.len(), n));
        }
        Ok(())
    });
    // items that are handed out after long pauses
    let s = || {
        let pause = prop_oneof![3 => 5u16..100, 2 => 100u16..700, 1 => 1000u16..6000];
        (1u8..9, prop::collection::vec((any::<bool>(), pause), 1..4), 0u8..4, any::<bool>()).prop_map(|(threads, items, burst, ordered)| Late { threads, items, burst, ordered })
    };
    k.section("late items", k.n(64, 1500), 32, s, |v: &Late, info: &mut Info| {
        let (tx, rx) = mpsc::channel();
        let v = v.clone();
        let n = v.items.len() * (v.burst as usize + 1);
        info.nontrivial = v.items.iter().any(|x| x.1 >= 100);
        std::thread::spawn(move || {
            let f = |i: usize| i * 3;
            let burst = v.burst as usize + 1;
            let inputs = (0..n).map(move |i| {
                let (wait, ms) = v.items[i / burst];
                if i % burst == 0 && (wait || i == 0) {
                    std::thread::sleep(Duration::from_millis(ms as u64));
                }
                i
            });
            let mut got = if v.ordered { SequentialThreadPool::new(v.threads as usize, f, inputs).collect::<Vec<usize>>() } else { ThreadPool::new(v.threads as usize, f, inputs).collect() };
            if !v.ordered {
                got.sort();
            }
            let _ = tx.send(got);
        });
        let got = rx.recv_timeout(LIMIT + Duration::from_secs(20)).map_err(|_| Fail::Stall("the pool did not end".into()))?;
        if got.len() != n || got.iter().enumerate().any(|(i, x)| *x != i * 3) {
            return bad(format!("{} results for {} items, or out of order", got.len(), n));
        }
        Ok(())
    });
    let s = || (prop::collection::vec(any::<u8>(), 0..200), prop_oneof![4 => 1usize..12, 2 => 1usize..260, 1 => Just(25000usize), 1 => Just(usize::MAX / 4), 1 => Just(usize::MAX)]);
    k.section("batches", k.n(200000, 5000000), 8, s, |v: &(Vec<u8>, usize), info: &mut Info| {
        let (items, size) = v;
        info.nontrivial = items.len() > *size;
        if items.len() % size == 0 {
            info.label("divides exactly");
        }
        let limit = items.len() + 3;
        let got = sut(|| format!("{} items in batches of {}", items.len(), size), || {
            let mut b = Batcher::new(items.clone(), *size);
            let v: Vec<Vec<u8>> = b.by_ref().take(limit).collect();
            let end = b.next().is_none();
            (v, end)
        })?;
        if !got.1 {
            return bad("the batches do not end");
        }
        let got = got.0;
        if got.concat() != *items {
            return bad(format!("{:?} in batches of {} became {:?}", items, size, got));
        }
        if got.iter().any(|b| b.is_empty()) {
            return bad("an empty batch");
        }
        for (i, b) in got.iter().enumerate() {
            if b.len() > *size || (i + 1 < got.len() && b.len() != *size) {
                return bad(format!("batch {} of {} has {} elements instead of {}", i, got.len(), b.len(), size));
            }
        }
        Ok(())
    });
}

fn main() {
    run("C19", check)
}
