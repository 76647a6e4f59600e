//! C30 (damaged block files never give wrong answers), C31 (what the program cannot do ends it).
use crate::reuse::refused;
use crate::run::*;
use std::os::unix::fs::FileExt;
use std::path::PathBuf;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wreck {
    conf: Conf,
    blocks: Vec<BlockPlan>,
    /// (fork point, blocks)
    forks: Vec<(u16, Vec<BlockPlan>)>,
    layout: Layout,
    /// kind, where, how much
    damage: Vec<(u8, u16, u16)>,
}

/// The block files, and in each the records: position and length of the block.
fn records(dir: &std::path::Path) -> Vec<(PathBuf, Vec<(u64, u32)>)> {
    let mut files: Vec<PathBuf> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| {
            let n = p.file_name().unwrap().to_string_lossy().into_owned();
            n.len() == 12 && n.starts_with("blk") && n.ends_with(".dat") && n[3..8].bytes().all(|c| c.is_ascii_digit()) && p.is_file()
        })
        .collect();
    files.sort();
    files
        .into_iter()
        .map(|p| {
            let data = std::fs::read(&p).unwrap();
            let (mut at, mut l) = (0usize, vec![]);
            while data.len() >= at + 8 && data[at..at + 4] == MAGIC {
                let n = u32::from_le_bytes(data[at + 4..at + 8].try_into().unwrap());
                if n < 82 || at + 8 + n as usize > data.len() {
                    break;
                }
                l.push((at as u64, n));
                at += 8 + n as usize;
            }
            (p, l)
        })
        .collect()
}

const DAMAGES: [&str; 11] = [
    "a file missing",
    "a file cut short",
    "a wrong magic number",
    "a length too small",
    "a length too large",
    "a directory in the place of a file",
    "a broken link in the place of a file",
    "a transaction count too large",
    "something else after the last record",
    "the beginning of a further record",
    "a record missing",
];

fn wreck(dir: &std::path::Path, next: &[u8], edges: &BTreeMap<Vec<u8>, Vec<usize>>, d: &(u8, u16, u16)) -> Option<&'static str> {
    let files = records(dir);
    let kind = d.0 as usize % DAMAGES.len();
    let full: Vec<_> = files.iter().filter(|f| !f.1.is_empty()).collect();
    let (path, list) = full.get(d.1 as usize % full.len().max(1))?;
    let (at, len) = list[d.2 as usize % list.len()];
    let data = std::fs::read(path).unwrap();
    let amount = d.2 as usize / list.len();
    // the ends of the transactions in the record
    let edge = edges.get(&data[at as usize + 8..at as usize + 88]).filter(|_| amount % 2 == 1).map(|l| l[amount / 2 % l.len()]);
    let put = |at: u64, b: &[u8]| std::fs::OpenOptions::new().write(true).open(path).unwrap().write_all_at(b, at).unwrap();
    match kind {
        0 => std::fs::remove_file(path).unwrap(),
        1 => {
            let cut = match edge {
                Some(e) => at as usize + 8 + e,
                None => data.len() * d.2 as usize / 65536,
            };
            std::fs::write(path, &data[..cut]).unwrap()
        }
        2 => put(at, &(0xd9b4bef9u32 ^ (1 << (amount % 32)) ^ if amount % 3 == 0 { 0x0101_0000 } else { 0 }).to_le_bytes()),
        3 => {
            let short = match edge {
                Some(e) => e as u32,
                None => len - 1 - (amount as u32 * 7 % len.min(200)),
            };
            put(at + 4, &short.to_le_bytes())
        }
        4 => put(at + 4, &(len.saturating_add(1 + if amount % 9 == 0 { u32::MAX - len - 1 } else { amount as u32 % 500 })).to_le_bytes()),
        5 => {
            std::fs::remove_file(path).unwrap();
            std::fs::create_dir(path).unwrap();
        }
        6 => {
            std::fs::remove_file(path).unwrap();
            std::os::unix::fs::symlink("nowhere", path).unwrap();
        }
        7 => {
            // the count follows the header; larger by some, in the same form
            let count = data[at as usize + 88];
            if count >= 0xfc {
                return None;
            }
            put(at + 88, &[count + 1 + (amount as u8) % (0xfc - count)]);
        }
        8 => {
            let mut data = data;
            data.extend((0..1 + amount % 300).map(|i| (i * 37 + amount) as u8 | 1));
            std::fs::write(path, data).unwrap();
        }
        9 => {
            // after the last record, where the padding is
            let (at, len) = *list.last().unwrap();
            let mut data = data[..at as usize + 8 + len as usize].to_vec();
            let r = record(next);
            data.extend(&r[..1 + amount % (r.len() - 1)]);
            std::fs::write(path, data).unwrap();
        }
        _ => {
            let mut data = data;
            data.drain(at as usize..at as usize + 8 + len as usize);
            std::fs::write(path, data).unwrap();
        }
    }
    Some(DAMAGES[kind])
}

pub fn c30(k: &Check) {
    k.rule("a case is a set of block files with one to three damages that can be told from the files (records cut, wrong lengths, files missing ...), read with some number of threads, twice; non-trivial if at least one block on the chain was damaged or missing");
    k.assume("contents altered in a way that leaves them well formed are not generated: the files are trusted, as there is no check of proof of work or of Merkle roots");
    k.assume("the node serves the whole chain, which is longer than any other branch in the files");
    let s = || {
        (
            conf(),
            prop::collection::vec(block_plan(3), 3..16),
            prop::collection::vec((any::<u16>(), prop::collection::vec(block_plan(1), 1..4)), 0..3),
            prop_oneof![2 => layout(), 1 => layout().prop_map(|l| Layout { order: vec![], ..l })],
            prop::collection::vec((0u8..DAMAGES.len() as u8, any::<u16>(), any::<u16>()), 1..4),
        )
            .prop_map(|(conf, blocks, forks, layout, damage)| Wreck { conf, blocks, forks, layout, damage })
    };
    k.section("damaged files", k.n(3500, 70000), 8, s, |v: &Wreck, info| {
        let c = v.conf.confirmations as usize;
        let mut sim = chain(&v.blocks, c + 1);
        for (at, plans) in &v.forks {
            let mut tip = *at as usize % sim.blocks.len();
            for p in plans {
                tip = sim.make_block(Some(tip), p);
            }
        }
        let top = sim.blocks.iter().map(|b| b.height).max().unwrap();
        let mut tip = sim.tip();
        while sim.blocks[tip].height <= top {
            tip = sim.make_block(Some(tip), &empty_block());
        }
        sim.activate(tip);
        sim.mempool.clear();
        let on: BTreeSet<usize> = sim.active.iter().copied().collect();
        let mut raws = active_raws(&sim);
        raws.extend((0..sim.blocks.len()).filter(|i| !on.contains(i)).map(|i| (*sim.blocks[i].raw).clone()));
        // a block the node has and the files have not
        let next = sim.make_block(Some(tip), &v.blocks[0]);
        sim.activate(next);
        let next = (*sim.blocks[next].raw).clone();
        // where transactions end, but for the last
        let edges: BTreeMap<Vec<u8>, Vec<usize>> = sim
            .blocks
            .iter()
            .map(|b| {
                let all: usize = b.txs.iter().map(|t| t.raw.len()).sum();
                let mut at = b.raw.len() - all;
                let mut l = vec![at];
                for t in &b.txs[..b.txs.len() - 1] {
                    at += t.raw.len();
                    l.push(at);
                }
                (b.raw[..80].to_vec(), l)
            })
            .collect();
        let scratch = Scratch::new();
        write_layout(&scratch.blocks(), &raws, &v.layout);
        let dir = scratch.blocks();
        for d in &v.damage {
            if let Some(l) = wreck(&dir, &next, &edges, d) {
                info.label(l);
                info.nontrivial = true;
            }
        }
        let mut w = World::with_files(scratch, sim, &v.conf)?;
        let mut once = None;
        for round in ["", " (a second start)"] {
            let what = format!("damaged block files{}", round);
            if refused(&mut w, &what)? {
                info.label("refused");
                once = Some(true);
            } else {
                let right = |w: &mut World| -> R {
                    w.sync()?;
                    w.compare(0..=c)
                };
                right(&mut w).map_err(|e| match e {
                    Fail::Violation(m) => Fail::Violation(format!("{} ({:?}) lead to a wrong index: {}", what, v.damage.iter().map(|d| DAMAGES[d.0 as usize % DAMAGES.len()]).collect::<Vec<_>>(), m)),
                    e => e,
                })?;
                info.label("served");
                w.stop();
            }
        }
        let _ = once;
        Ok(())
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Obstacle {
    conf: Conf,
    blocks: Vec<BlockPlan>,
    next: Vec<BlockPlan>,
    kind: u8,
    at: u8,
    style: u8,
}

fn ends(w: &mut World, what: &str) -> R {
    match w.ix().wait_exit(LIMIT) {
        Some(s) if s.success() => bad(format!("{}: the program ends as if all was well", what)),
        Some(_) => Ok(()),
        None => bad(format!("{}: the program goes on", what)),
    }
}

pub fn c31(k: &Check) {
    k.rule("a case is a chain and something the program needs and does not get (its address, the block files, the place of its index at the start or later, the node); non-trivial always");
    let s = || {
        (conf(), prop::collection::vec(block_plan(2), 0..6), prop::collection::vec(block_plan(2), 1..4), 0u8..9, any::<u8>(), any::<u8>())
            .prop_map(|(conf, blocks, next, kind, at, style)| Obstacle { conf, blocks, next, kind, at, style })
    };
    k.section("obstacles", k.n(2000, 36000), 8, s, |v: &Obstacle, info| {
        let c = v.conf.confirmations as usize;
        let mut w = World::new(chain(&v.blocks, c), &v.conf, &plain_layout())?;
        info.nontrivial = true;
        // the program works once the obstacle is gone
        let fine = |w: &mut World| -> R {
            w.stop();
            w.start()?;
            w.sync()?;
            w.compare([0, c])
        };
        match v.kind {
            0 => {
                info.label("address taken by something else");
                if v.at % 2 == 0 {
                    // with an index
                    w.start()?;
                    w.stop();
                }
                w.launch.renew();
                let taken = std::net::TcpListener::bind((w.launch.ip, w.launch.port)).map_err(|e| Fail::Harness(e.to_string()))?;
                w.ix = Some(w.launch.spawn()?);
                ends(&mut w, "its address is taken")?;
                drop(taken);
                fine(&mut w)
            }
            1 => {
                info.label("address taken by another instance");
                w.start()?;
                let mut other = World::new(chain(&v.next, c), &v.conf, &plain_layout())?;
                other.launch.ip = w.launch.ip;
                other.launch.port = w.launch.port;
                for k in ["HOST", "PORT"] {
                    let x = w.launch.env[k].clone();
                    other.launch.env.insert(k.into(), x);
                }
                other.ix = Some(other.launch.spawn()?);
                ends(&mut other, "its address is that of another instance")?;
                w.node.with(|i| v.next.iter().for_each(|b| i.sim.mine(b)));
                w.sync()?;
                w.compare(0..=c)?;
                fine(&mut other)
            }
            2 => {
                let ip: std::net::Ipv4Addr = [[203, 0, 113, v.at], [192, 0, 2, v.at], [198, 51, 100, v.at]][v.style as usize % 3].into();
                if std::net::TcpListener::bind((ip, 0)).is_ok() {
                    return Ok(());
                }
                info.label("address of another machine");
                w.launch = w.launch.clone().set("HOST", ip);
                w.ix = Some(w.launch.spawn()?);
                ends(&mut w, "its address is not one of this machine")?;
                fine(&mut w)
            }
            3 => {
                info.label("no block files");
                let dir = w.scratch.blocks();
                let aside = dir.with_extension("aside");
                std::fs::rename(&dir, &aside).unwrap();
                match v.style % 3 {
                    0 => {}
                    1 => std::fs::write(&dir, b"a file").unwrap(),
                    _ => std::os::unix::fs::symlink("nowhere", &dir).unwrap(),
                }
                if !refused(&mut w, "the block files cannot be read")? {
                    return bad("the program starts although there is neither an index nor a directory of block files");
                }
                if v.style % 3 > 0 {
                    std::fs::remove_file(&dir).unwrap();
                }
                std::fs::rename(&aside, &dir).unwrap();
                fine(&mut w)
            }
            4 => {
                let place = w.scratch.0.join("place");
                let path = match v.style % 4 {
                    0 => place.join("not there").join("index"),
                    1 => {
                        std::fs::write(&place, b"a file").unwrap();
                        place.join("index")
                    }
                    2 => {
                        std::fs::create_dir_all(place.join("inside")).unwrap();
                        place.clone()
                    }
                    _ => {
                        std::fs::create_dir_all(&place).unwrap();
                        place.join("x".repeat(300))
                    }
                };
                info.label(["no directory for the index", "a file in the place of the directory", "a directory in the place of the index", "a name that is too long"][v.style as usize % 4]);
                let was = w.launch.env["STORE_FILE_PATH"].clone();
                w.launch = w.launch.clone().set("STORE_FILE_PATH", path.to_str().unwrap());
                if !refused(&mut w, "the index cannot be saved")? {
                    return bad("the program starts although its index cannot be saved");
                }
                w.launch = w.launch.clone().set("STORE_FILE_PATH", was);
                fine(&mut w)
            }
            5 => {
                info.label("the directory of the index goes away");
                w.start()?;
                w.sync()?;
                let dir = w.scratch.store_dir();
                let aside = dir.with_extension("aside");
                std::fs::rename(&dir, &aside).unwrap();
                w.node.with(|i| v.next.iter().for_each(|b| i.sim.mine(b)));
                ends(&mut w, "a save failed because the directory of the index is gone")?;
                std::fs::rename(&aside, &dir).unwrap();
                no_blocks(&w);
                fine(&mut w)
            }
            6 | 7 => {
                info.label("writing fails");
                let ctl = Ctl::new(&w.scratch.0);
                w.launch.ctl = Some(ctl.path.clone());
                w.start()?;
                w.sync()?;
                if !crate::keep::settle(&ctl, Duration::from_millis(30)) {
                    return Err(Fail::Stall("the save never ends".into()));
                }
                // from the n-th file operation of a later save on
                let from = ctl.ops();
                ctl.arm(1 + (v.at % 5) as i64, ctl::FAIL_EIO_ALL);
                w.node.with(|i| v.next.iter().for_each(|b| i.sim.mine(b)));
                let end = Instant::now() + LIMIT;
                let mut last = (from, Instant::now());
                while !ctl.fired() && w.ix().exited().is_none() {
                    if Instant::now() > end {
                        return Err(Fail::Stall("no save took place".into()));
                    }
                    if ctl.ops() != last.0 {
                        last = (ctl.ops(), Instant::now());
                    }
                    if last.0 > from && last.1.elapsed() > Duration::from_millis(500) {
                        // a save has fewer operations
                        return Ok(());
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
                info.label(format!("file operation {} of a save", 1 + v.at % 5));
                ends(&mut w, "a save failed with an I/O error")?;
                w.launch.ctl = None;
                no_blocks(&w);
                fine(&mut w)
            }
            _ => {
                info.label("no node");
                if v.at % 2 == 0 {
                    w.start()?;
                    w.stop();
                }
                let port = w.launch.env["RPC_SERVER_PORT"].clone();
                // nobody listens there
                let free = std::net::TcpListener::bind((fresh_ip(), 0)).unwrap();
                let nobody = free.local_addr().unwrap();
                drop(free);
                let host = w.launch.env["RPC_SERVER_HOST"].clone();
                w.launch = w.launch.clone().set("RPC_SERVER_HOST", nobody.ip()).set("RPC_SERVER_PORT", nobody.port());
                if !refused(&mut w, "there is no node")? {
                    return bad("the program starts to answer although there is no node");
                }
                w.launch = w.launch.clone().set("RPC_SERVER_HOST", host).set("RPC_SERVER_PORT", port);
                fine(&mut w)
            }
        }
    });
}

fn no_blocks(w: &World) {
    std::fs::remove_dir_all(w.scratch.blocks()).ok();
    std::fs::create_dir_all(w.scratch.blocks()).ok();
}
