//! Abstract, shrinkable, serialisable plans for transactions, blocks and histories, and their strategies.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OutPlan {
    /// see model::Sim::script_of
    pub kind: u8,
    pub addr: u8,
    /// share of the input value (0 = zero-valued output)
    pub w: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TxPlan {
    /// selectors into the currently spendable outputs
    pub ins: Vec<u16>,
    pub outs: Vec<OutPlan>,
    pub segwit: bool,
    /// script / witness length class
    pub len: u8,
    /// extra P2PKH outputs (to reach counts that need longer length prefixes)
    pub bulk: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BlockPlan {
    pub coinbase: Vec<OutPlan>,
    pub value: u8,
    pub txs: Vec<TxPlan>,
    /// bit i: include the i-th mempool transaction (if possible)
    pub take: u16,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Mine(Vec<BlockPlan>),
    /// replace `depth` (mod allowed) blocks by a branch `extra`+1 longer
    Reorg { depth: u8, extra: u8, blocks: Vec<BlockPlan> },
    /// go back to an earlier stale branch, extended until it is longer
    ReorgBack { which: u8, blocks: Vec<BlockPlan> },
    MemAdd(Vec<TxPlan>),
    /// replace the i-th mempool transaction by one spending the same inputs
    MemReplace(u8, TxPlan),
    MemEvict(u8),
    /// listed, but the node does not return them
    MemGhost(Vec<TxPlan>),
    /// the node returns the i-th mempool transaction from now on
    MemFound(u8),
    /// the same transactions listed in another order
    MemShuffle(Vec<u8>),
    /// a further transaction spending the inputs of the i-th, listed after (or before) it
    MemConflict(u8, bool, TxPlan),
    /// an evicted transaction is listed again
    MemBack(u8),
    Sync,
    Restart { offline: Vec<Op> },
}

pub fn out_plan() -> impl Strategy<Value = OutPlan> {
    (
        prop_oneof![
            8 => 0u8..4, 4 => 4u8..6, 1 => Just(6u8), 1 => Just(7u8), 2 => Just(8u8), 1 => 9u8..18
        ],
        0u8..8,
        prop_oneof![1 => Just(0u8), 9 => 1u8..20],
    )
        .prop_map(|(kind, addr, w)| OutPlan { kind, addr, w })
}

pub fn tx_plan() -> impl Strategy<Value = TxPlan> {
    (
        prop_oneof![60 => prop::collection::vec(any::<u16>(), 1..5), 1 => prop::collection::vec(any::<u16>(), 250..300)],
        prop::collection::vec(out_plan(), 1..6),
        any::<bool>(),
        prop_oneof![20 => 0u8..4, 2 => 4u8..8],
        prop_oneof![60 => Just(0u16), 2 => 1u16..30, 1 => 240u16..300],
    )
        .prop_map(|(ins, outs, segwit, len, bulk)| TxPlan { ins, outs, segwit, len, bulk })
}

pub fn block_plan(max_txs: usize) -> impl Strategy<Value = BlockPlan> {
    (
        prop::collection::vec(out_plan(), 1..4),
        any::<u8>(),
        prop::collection::vec(tx_plan(), 0..=max_txs),
        prop_oneof![1 => Just(0u16), 1 => Just(u16::MAX), 2 => any::<u16>()],
    )
        .prop_map(|(coinbase, value, txs, take)| BlockPlan { coinbase, value, txs, take })
}

pub fn empty_block() -> BlockPlan {
    BlockPlan { coinbase: vec![OutPlan { kind: 0, addr: 0, w: 1 }], value: 0, txs: vec![], take: 0 }
}

#[derive(Clone, Copy, Debug)]
pub struct Weights {
    pub mine: u32,
    pub reorg: u32,
    pub back: u32,
    pub mem: u32,
    pub sync: u32,
    pub restart: u32,
}

fn simple_op(w: Weights) -> BoxedStrategy<Op> {
    let arms: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (w.mine, prop_oneof![5 => prop::collection::vec(block_plan(4), 1..2), 3 => prop::collection::vec(block_plan(3), 2..5), 1 => prop::collection::vec(block_plan(1), 5..9)].prop_map(Op::Mine).boxed()),
        (w.reorg, (any::<u8>(), 0u8..3, prop::collection::vec(block_plan(3), 0..5)).prop_map(|(depth, extra, blocks)| Op::Reorg { depth, extra, blocks }).boxed()),
        (w.back, (any::<u8>(), prop::collection::vec(block_plan(2), 0..3)).prop_map(|(which, blocks)| Op::ReorgBack { which, blocks }).boxed()),
        (w.mem * 4, prop::collection::vec(tx_plan(), 1..4).prop_map(Op::MemAdd).boxed()),
        (w.mem, (any::<u8>(), tx_plan()).prop_map(|(i, t)| Op::MemReplace(i, t)).boxed()),
        (w.mem, any::<u8>().prop_map(Op::MemEvict).boxed()),
        (w.mem, prop::collection::vec(tx_plan(), 1..3).prop_map(Op::MemGhost).boxed()),
        (w.mem, any::<u8>().prop_map(Op::MemFound).boxed()),
        (w.mem, prop::collection::vec(any::<u8>(), 1..8).prop_map(Op::MemShuffle).boxed()),
        (w.mem, (any::<u8>(), any::<bool>(), tx_plan()).prop_map(|(i, b, t)| Op::MemConflict(i, b, t)).boxed()),
        (w.mem * 2, any::<u8>().prop_map(Op::MemBack).boxed()),
        (w.sync, Just(Op::Sync).boxed()),
    ];
    prop::strategy::Union::new_weighted(arms.into_iter().filter(|a| a.0 > 0).collect())
    .boxed()
}

pub fn op(w: Weights) -> BoxedStrategy<Op> {
    let s = simple_op(w);
    if w.restart == 0 {
        return s;
    }
    let total = w.mine + w.reorg + w.back + w.mem * 12 + w.sync;
    let off = simple_op(Weights { sync: 0, ..w });
    prop_oneof![
        total => s,
        w.restart => prop::collection::vec(off, 0..4).prop_map(|offline| Op::Restart { offline }),
    ]
    .boxed()
}

/// How the block records are laid out in block files.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Layout {
    /// order key per record (records sorted by key, stable); empty = chain order
    pub order: Vec<u16>,
    /// records per file, cycled
    pub per_file: Vec<u8>,
    /// zero padding after the last record of a file, cycled
    pub pad: Vec<u16>,
    /// first file number and step
    pub first: u32,
    pub step: u8,
    /// put foreign files in the directory
    pub foreign: bool,
    /// files kept elsewhere, with a symbolic link in their place; cycled
    #[serde(default)]
    pub links: Vec<bool>,
    /// files without any record: after how many others, and how much padding they hold
    #[serde(default)]
    pub hollow: Vec<(u8, u16)>,
}

pub fn layout() -> impl Strategy<Value = Layout> {
    (
        prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(any::<u16>(), 1..40)],
        prop::collection::vec(1u8..9, 1..4),
        prop::collection::vec(prop_oneof![2 => Just(0u16), 2 => 88u16..400, 2 => 1u16..88], 1..4),
        prop_oneof![3 => Just(0u32), 1 => 0u32..90000],
        1u8..4,
        any::<bool>(),
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(any::<bool>(), 1..5)],
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((0u8..4, prop_oneof![1 => Just(0u16), 1 => 1u16..88, 1 => 88u16..9000]), 1..3)],
    )
        .prop_map(|(order, per_file, pad, first, step, foreign, links, hollow)| Layout { order, per_file, pad, first, step, foreign, links, hollow })
}

pub fn plain_layout() -> Layout {
    Layout { order: vec![], per_file: vec![200], pad: vec![0], first: 0, step: 1, foreign: false, links: vec![], hollow: vec![] }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Conf {
    pub threads: u8,
    pub batch: u16,
    pub confirmations: u8,
}

impl Conf {
    /// The largest stand for sizes far beyond any number of blocks.
    pub fn batch_size(&self) -> usize {
        match self.batch {
            65535 => usize::MAX,
            65534 => 1 << 62,
            65533 => 1 << 40,
            n => n as usize,
        }
    }
}

pub fn batch() -> impl Strategy<Value = u16> {
    prop_oneof![18 => 1u16..6, 6 => Just(25000u16), 1 => 65533u16..=65535]
}

pub fn conf() -> impl Strategy<Value = Conf> {
    (prop_oneof![30 => 1u8..6, 1 => 6u8..=255], batch(), prop_oneof![4 => Just(1u8), 24 => 2u8..7, 4 => 7u8..10, 1 => 10u8..40])
        .prop_map(|(threads, batch, confirmations)| Conf { threads, batch, confirmations })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct History {
    pub conf: Conf,
    pub initial: Vec<BlockPlan>,
    pub layout: Layout,
    pub ops: Vec<Op>,
}

pub fn history(w: Weights, max_initial: usize, max_ops: usize) -> impl Strategy<Value = History> {
    (
        conf(),
        prop::collection::vec(block_plan(3), 0..=max_initial),
        prop_oneof![2 => Just(plain_layout()), 1 => layout()],
        prop::collection::vec(op(w), 1..=max_ops),
    )
        .prop_map(|(conf, initial, layout, ops)| History { conf, initial, layout, ops })
}
