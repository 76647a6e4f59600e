//! A running world: block files, fake node, the program, and the comparison of everything it serves with the model.
pub use common::btc::*;
pub use common::ctl::{self, Ctl};
pub use common::files::*;
pub use common::model::*;
pub use common::node::*;
pub use common::plan::*;
pub use common::proc::*;
pub use common::report::*;
pub use proptest::prelude::*;
pub use serde::{Deserialize, Serialize};
pub use serde_json::json;
pub use std::collections::{BTreeMap, BTreeSet};
pub use std::time::{Duration, Instant};

pub type R<T = ()> = Result<T, Fail>;

pub fn bad<T>(m: impl Into<String>) -> R<T> {
    Err(Fail::Violation(m.into()))
}

/// A chain of at least `confirmations` blocks from the plans.
pub fn chain(initial: &[BlockPlan], confirmations: usize) -> Sim {
    let mut sim = Sim::default();
    sim.mine(&empty_block());
    for p in initial {
        sim.mine(p);
    }
    let mut i = 0u8;
    while sim.active.len() < confirmations {
        i += 1;
        sim.mine(&BlockPlan { coinbase: vec![OutPlan { kind: i % 6, addr: i, w: 1 }], value: i, txs: vec![], take: 0 });
    }
    sim
}

pub struct World {
    pub scratch: Scratch,
    pub node: Node,
    pub conf: Conf,
    pub launch: Launch,
    pub ix: Option<Indexer>,
    pub addrs: Vec<Addr>,
}

impl World {
    /// Writes the active chain of `sim` into block files; nothing is started yet.
    pub fn new(sim: Sim, conf: &Conf, layout: &Layout) -> R<World> {
        let scratch = Scratch::new();
        write_layout(&scratch.blocks(), &active_raws(&sim), layout);
        Self::with_files(scratch, sim, conf)
    }

    pub fn with_files(scratch: Scratch, sim: Sim, conf: &Conf) -> R<World> {
        let node = Node::start(sim).map_err(|e| Fail::Harness(format!("node: {}", e)))?;
        let launch = Launch::new(&scratch, &node, conf.threads as usize, conf.batch_size(), conf.confirmations as usize);
        Ok(World { scratch, node, conf: conf.clone(), launch, ix: None, addrs: all_addresses() })
    }

    pub fn c(&self) -> usize {
        self.conf.confirmations as usize
    }

    pub fn ix(&mut self) -> &mut Indexer {
        self.ix.as_mut().unwrap()
    }

    pub fn spawn(&mut self) -> R {
        self.launch.renew();
        self.ix = Some(self.launch.spawn()?);
        Ok(())
    }

    /// Starts the program and waits until it listens.
    pub fn start(&mut self) -> R {
        self.spawn()?;
        self.ix().ready()
    }

    pub fn stop(&mut self) {
        if let Some(mut i) = self.ix.take() {
            i.kill();
            // nothing it asked is answered (and counted) after this
            self.node.wait(Duration::from_secs(5), || true, |i| i.live <= i.held - i.released);
        }
    }

    pub fn sync(&mut self) -> R {
        let ix = self.ix.as_mut().unwrap();
        ix.sync(&self.node)
    }

    pub fn expected(&self, c: usize) -> Utxo {
        self.node.lock().sim.expected(c)
    }

    pub fn compare(&mut self, levels: impl IntoIterator<Item = usize>) -> R {
        for c in levels {
            let want = self.expected(c);
            compare(self.ix.as_mut().unwrap(), &self.addrs, c, &want)?;
        }
        Ok(())
    }

    pub fn apply(&mut self, op: &Op) -> Option<&'static str> {
        let c = self.c();
        self.node.with(|i| i.sim.apply(op, c))
    }
}

/// Interprets a history. `levels(c)` are compared at every Sync, after every restart and at the end.
pub fn run_history(h: &History, info: &mut Info, levels: &dyn Fn(usize) -> Vec<usize>) -> R<World> {
    let c = h.conf.confirmations as usize;
    let sim = chain(&h.initial, c);
    let mut w = World::new(sim, &h.conf, &h.layout)?;
    w.start()?;
    let mut dirty = true;
    for op in &h.ops {
        match op {
            Op::Sync => {
                w.sync()?;
                w.compare(levels(c))?;
                dirty = false;
                info.label("sync");
            }
            Op::Restart { offline } => {
                w.stop();
                for o in offline {
                    if let Some(l) = w.apply(o) {
                        info.label(format!("offline {}", l));
                    }
                }
                w.start()?;
                w.sync()?;
                w.compare(levels(c))?;
                dirty = false;
                info.label("restart");
            }
            o => {
                if let Some(l) = w.apply(o) {
                    info.label(l);
                    dirty = true;
                }
            }
        }
    }
    if dirty {
        w.sync()?;
        w.compare(levels(c))?;
    }
    Ok(w)
}
