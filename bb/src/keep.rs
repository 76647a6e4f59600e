//! C22 (the saved index keeps up), C23 (a poll fetches only what is new), C24 (nothing else is touched).
use crate::run::*;
use std::path::{Path, PathBuf};

/// Waits until the files have been left alone for `quiet`; false at the deadline.
pub fn settle(c: &ctl::Ctl, quiet: Duration) -> bool {
    let end = Instant::now() + LIMIT;
    let mut last = (c.ops(), Instant::now());
    while Instant::now() < end {
        let n = c.ops();
        if n != last.0 {
            last = (n, Instant::now());
        } else if last.1.elapsed() > quiet {
            return true;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    false
}

fn no_block_files(w: &World) {
    std::fs::remove_dir_all(w.scratch.blocks()).ok();
    std::fs::create_dir_all(w.scratch.blocks()).ok();
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Kept {
    conf: Conf,
    initial: Vec<BlockPlan>,
    /// changes; a save is stopped while they happen (0: not, n: at its n-th file operation); the block after them
    rounds: Vec<(Vec<Vec<Op>>, u8, BlockPlan)>,
}

pub fn c22(k: &Check) {
    k.rule("a case is a history; after each part of it the files are left alone, one more block arrives, the save that follows ends, and the program has to come back with the saved index alone and a node that has pruned every final block; non-trivial if blocks became final while a save was stopped, or several blocks became final at once");
    k.assume("a save that follows a block which arrives while no save is under way holds everything that is final then");
    let w = Weights { mine: 6, reorg: 2, back: 1, mem: 1, sync: 0, restart: 0 };
    let s = move || {
        (
            conf(),
            prop::collection::vec(block_plan(3), 1..6),
            prop::collection::vec((prop::collection::vec(prop::collection::vec(op(w), 1..4), 0..4), prop_oneof![1 => Just(0u8), 2 => 1u8..6], block_plan(2)), 1..4),
        )
            .prop_map(|(conf, initial, rounds)| Kept { conf, initial, rounds })
    };
    k.section("pruned node", k.n(600, 12000), 8, s, |h: &Kept, info| {
        let c = h.conf.confirmations as usize;
        let mut w = World::new(chain(&h.initial, c), &h.conf, &plain_layout())?;
        let ctl = Ctl::new(&w.scratch.0);
        w.launch.ctl = Some(ctl.path.clone());
        w.start()?;
        w.sync()?;
        for (steps, hold, last) in &h.rounds {
            if *hold > 0 {
                ctl.arm(*hold as i64, ctl::HOLD);
            }
            for ops in steps {
                let from = w.node.lock().sim.height();
                for o in ops {
                    w.apply(o);
                }
                w.sync()?;
                let more = w.node.lock().sim.height() > from;
                if more && ctl.held() {
                    info.label("blocks became final during a save");
                    info.nontrivial = true;
                }
                if w.node.lock().sim.height() > from + 1 {
                    info.label("several blocks at once");
                    info.nontrivial = true;
                }
            }
            // whatever is stopped goes on, nothing is stopped any more
            ctl.raw().fire_at.store(0, std::sync::atomic::Ordering::SeqCst);
            ctl.release();
            let mut tries = 0;
            loop {
                tries += 1;
                // on a slow machine the pause may have been none: try again, with more patience
                let quiet = Duration::from_millis([40, 150, 600, 2500, 6000][tries - 1]);
                if !settle(&ctl, quiet) {
                    return Err(Fail::Stall("the saves never end".into()));
                }
                let from = ctl.ops();
                w.node.with(|i| i.sim.mine(last));
                w.sync()?;
                let start = Instant::now();
                while ctl.ops() == from {
                    if start.elapsed() > LIMIT {
                        return Err(Fail::Stall("no save after a block became final".into()));
                    }
                    if w.ix().exited().is_some() {
                        return Err(w.ix().died("after a block"));
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
                if !settle(&ctl, quiet) {
                    return Err(Fail::Stall("the save never ends".into()));
                }
                w.stop();
                no_block_files(&w);
                let floor = w.node.with(|i| {
                    i.pruned_below = i.sim.active.len() + 1 - c;
                    i.pruned_asked.clear();
                    i.pruned_below
                });
                w.spawn()?;
                let r = w.ix().ready();
                let asked = w.node.with(|i| {
                    i.pruned_below = 0;
                    i.pruned_asked.clone()
                });
                if let Some(height) = asked.first() {
                    if tries < 5 {
                        w.stop();
                        w.start()?;
                        w.sync()?;
                        continue;
                    }
                    return bad(format!(
                        "started from the saved index, the program asks the node for block {}, although blocks up to {} were final before the last save",
                        height,
                        floor - 1
                    ));
                }
                r?;
                w.sync()?;
                w.compare(0..=c)?;
                break;
            }
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Thrift {
    conf: Conf,
    initial: Vec<BlockPlan>,
    many: u16,
    /// (restart first, changes)
    steps: Vec<(bool, Vec<Op>)>,
}

pub fn c23(k: &Check) {
    k.rule("a case is a history; after every change the polls that follow it are watched; non-trivial if at least one block and one unconfirmed transaction were fetched and later polls brought further changes");
    let w = Weights { mine: 4, reorg: 1, back: 1, mem: 3, sync: 0, restart: 0 };
    let s = move || {
        (
            conf(),
            prop::collection::vec(block_plan(3), 1..8),
            prop_oneof![3 => Just(0u16), 1 => 1u16..400],
            prop::collection::vec((prop_oneof![6 => Just(false), 1 => Just(true)], prop::collection::vec(op(w), 0..3)), 2..10),
        )
            .prop_map(|(conf, initial, many, steps)| Thrift { conf, initial, many, steps })
    };
    k.section("polls watched", k.n(900, 20000), 8, s, |h: &Thrift, info| {
        let c = h.conf.confirmations as usize;
        let mut sim = chain(&h.initial, c);
        if h.many > 0 {
            sim.mine(&BlockPlan {
                coinbase: vec![OutPlan { kind: 0, addr: 2, w: 1 }],
                value: 0,
                take: 0,
                txs: vec![TxPlan { ins: vec![3], outs: vec![OutPlan { kind: 0, addr: 1, w: 3 }], segwit: false, len: 1, bulk: h.many }],
            });
            let plan = |i: u16| TxPlan { ins: vec![i.wrapping_mul(163)], outs: vec![OutPlan { kind: (i % 6) as u8, addr: (i % 8) as u8, w: 1 }], segwit: i % 2 == 0, len: 1, bulk: 0 };
            sim.apply(&Op::MemAdd((0..h.many).map(plan).collect()), c);
        }
        let mut w = World::new(sim, &h.conf, &plain_layout())?;
        w.start()?;
        let mut changes = 0;
        for (n, (restart, ops)) in std::iter::once((false, vec![])).chain(h.steps.iter().cloned()).enumerate() {
            if restart {
                w.stop();
                w.node.with(|i| {
                    i.known.clear();
                    i.fetched.clear();
                });
                w.start()?;
            }
            w.sync()?;
            let mut reorganised = false;
            // only between polls: what a poll under way has seen is then certain
            let mut news = false;
            for o in &ops {
                if let Some(l) = w.apply(o) {
                    reorganised |= l.contains("reorg");
                    news = true;
                    info.label(l);
                }
            }
            w.sync()?;
            if reorganised {
                // branches are looked for by fetching blocks again
                w.node.with(|i| i.fetched.clear());
            }
            w.compare([0, c])?;
            changes += news as usize;
            let check = |w: &World, when: &str| -> R {
                let g = w.node.lock();
                if let Some((id, n)) = g.known.iter().find(|x| *x.1 > 1) {
                    return bad(format!("{}: transaction {} was fetched {} times while it stayed listed", when, rev_hex(id), n));
                }
                if let Some((id, n)) = g.fetched.iter().find(|x| *x.1 > 1) {
                    return bad(format!("{}: block {} was fetched {} times although no reorganisation took place", when, rev_hex(id), n));
                }
                Ok(())
            };
            check(&w, &format!("after step {}", n))?;
            // polls without news
            let count = |w: &World| {
                let g = w.node.lock();
                let n = |m: &str| g.by_method.get(m).copied().unwrap_or(0);
                (n("getblock"), n("getrawtransaction"), g.polls, g.sim.mempool.iter().filter(|m| m.missing).count() as u64)
            };
            let before = count(&w);
            w.sync()?;
            let after = count(&w);
            if after.0 > before.0 {
                return bad(format!("after step {}: {} blocks were fetched by polls although nothing had changed", n, after.0 - before.0));
            }
            if after.1 - before.1 > (after.2 - before.2 + 1) * after.3 {
                return bad(format!(
                    "after step {}: {} calls of getrawtransaction in {} polls although nothing had changed and only {} listed transactions are not returned",
                    n,
                    after.1 - before.1,
                    after.2 - before.2,
                    after.3
                ));
            }
            check(&w, &format!("after step {}", n))?;
        }
        let g = w.node.lock();
        info.nontrivial = changes >= 2 && g.by_method.contains_key("getblock") && g.by_method.contains_key("getrawtransaction");
        if h.many > 100 {
            info.label("more than 100 unconfirmed transactions");
        }
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Guest {
    history: History,
    /// kill (instead of letting it finish) during a save before a restart: n-th operation; 0: not
    kills: Vec<u8>,
}

type Snap = BTreeMap<PathBuf, (u32, i64, i64, Vec<u8>)>;

/// Everything below `dir` (without the paths `skip` accepts): mode, modification time, content.
fn snap(dir: &Path, skip: &dyn Fn(&Path) -> bool, out: &mut Snap) {
    use std::os::unix::fs::MetadataExt;
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let p = e.path();
        if skip(&p) {
            continue;
        }
        let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
        if m.is_dir() {
            out.insert(p.clone(), (m.mode(), 0, 0, vec![]));
            snap(&p, skip, out);
        } else if m.file_type().is_symlink() {
            let t = std::fs::read_link(&p).map(|t| t.to_string_lossy().into_owned().into_bytes()).unwrap_or_default();
            out.insert(p, (m.mode(), m.mtime(), m.mtime_nsec(), t));
        } else {
            let data = std::fs::read(&p).unwrap_or_default();
            out.insert(p, (m.mode(), m.mtime(), m.mtime_nsec(), sha256d(&data).to_vec()));
        }
    }
}

pub fn c24(k: &Check) {
    k.rule("a case is a history with restarts and kills in a directory tree full of other files; non-trivial if the program saved its index at least twice");
    k.assume("files whose name begins with that of the index are its companions if they were not there before");
    let w = Weights { mine: 12, reorg: 1, back: 1, mem: 1, sync: 6, restart: 5 };
    let s = move || (history(w, 6, 18), prop::collection::vec(0u8..6, 1..4)).prop_map(|(history, kills)| Guest { history, kills });
    k.section("other files", k.n(500, 10000), 8, s, |v: &Guest, info| {
        let h = &v.history;
        let c = h.conf.confirmations as usize;
        let mut layout = h.layout.clone();
        layout.foreign = true;
        let mut w = World::new(chain(&h.initial, c), &h.conf, &layout)?;
        let ctl = Ctl::new(&w.scratch.0);
        w.launch.ctl = Some(ctl.path.clone());
        let cwd = w.launch.cwd.clone();
        let store = w.scratch.store();
        std::fs::create_dir_all(cwd.join("data")).unwrap();
        std::fs::create_dir_all(w.scratch.store_dir().join("store.dat.d")).unwrap();
        for d in [cwd.clone(), cwd.join("data"), w.scratch.0.join("tmp"), w.scratch.0.join("home"), w.scratch.store_dir(), w.scratch.store_dir().join("store.dat.d"), w.scratch.blocks()] {
            for n in ["store.dat.bak", "store.dat.old", "store.dat~", "store.bak", "store", "store.tmp", "store.dat.1", ".store.dat.swp", "tmp", "wallet.dat", "bitcoin.conf", "index.dat", "store.data", "blk.tmp", "utxo", "debug.log", "log.txt", "core"] {
                std::fs::write(d.join(n), format!("{} of someone else", n)).unwrap();
            }
            let _ = std::os::unix::fs::symlink("wallet.dat", d.join("link"));
        }
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(w.scratch.blocks().join("wallet.dat"), std::fs::Permissions::from_mode(0o400)).unwrap();
        let mine = [store.clone(), w.scratch.0.join("ctl"), w.scratch.0.join("stderr")];
        let skip = |p: &Path| mine.contains(&p.to_path_buf());
        let mut before = Snap::new();
        snap(&w.scratch.0, &skip, &mut before);
        let check = |when: &str| -> R {
            let (n, path) = ctl.foreign();
            if n > 0 {
                return bad(format!("{}: the program tried to change {}", when, path));
            }
            let mut now = Snap::new();
            snap(&store.parent().unwrap().parent().unwrap(), &skip, &mut now);
            for (p, x) in &before {
                match now.get(p) {
                    None => return bad(format!("{}: {} is gone", when, p.display())),
                    Some(y) if x.3 != y.3 => return bad(format!("{}: the content of {} has changed", when, p.display())),
                    Some(y) if x != y => return bad(format!("{}: mode or modification time of {} has changed", when, p.display())),
                    _ => {}
                }
            }
            for p in now.keys() {
                let companion = p.parent() == store.parent() && p.file_name().unwrap().to_string_lossy().starts_with("store.dat");
                if !before.contains_key(p) && !companion {
                    return bad(format!("{}: {} was created", when, p.display()));
                }
            }
            Ok(())
        };
        w.start()?;
        w.sync()?;
        let mut restarts = 0;
        for op in &h.ops {
            match op {
                Op::Sync => {
                    w.sync()?;
                    check("while running")?;
                }
                Op::Restart { offline } => {
                    let kill = v.kills[restarts % v.kills.len()];
                    restarts += 1;
                    if kill > 0 {
                        // killed in the middle of a save, if one comes
                        let polls = w.node.lock().polls;
                        ctl.arm(kill as i64, ctl::KILL_PARTIAL);
                        w.node.with(|i| i.sim.mine(&empty_block()));
                        let end = Instant::now() + Duration::from_secs(2);
                        while w.ix().exited().is_none() && Instant::now() < end && w.node.lock().polls < polls + 40 {
                            std::thread::sleep(Duration::from_millis(1));
                        }
                        if ctl.fired() {
                            info.label("killed during a save");
                        }
                        ctl.raw().fire_at.store(0, std::sync::atomic::Ordering::SeqCst);
                    }
                    w.stop();
                    for o in offline {
                        w.apply(o);
                    }
                    check("after a stop")?;
                    w.start()?;
                    w.sync()?;
                    info.label("restart");
                }
                o => {
                    w.apply(o);
                }
            }
        }
        w.sync()?;
        w.compare([0, c])?;
        w.stop();
        check("at the end")?;
        info.nontrivial = ctl.ops() > 8;
        Ok(())
    });
}
