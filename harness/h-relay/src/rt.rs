use bitcoin::types::{BlockHeader, H256Le};
pub use mockrt::*;
use sp_core::U256;
use sp_runtime::BuildStorage;

frame_support::construct_runtime!(
    pub enum Test {
        System: frame_system::{Pallet, Call, Storage, Config<T>, Event<T>},
        Timestamp: pallet_timestamp::{Pallet, Call, Storage, Inherent},
        BTCRelay: btc_relay::{Pallet, Call, Config<T>, Storage, Event<T>},
        Security: security::{Pallet, Call, Storage, Event<T>},
    }
);
mockrt::mock_system!(Test, u64, u64, frame_system::mocking::MockBlock<Test>);

/// parachain blocks per Bitcoin block
pub const PER: u64 = 100;
frame_support::parameter_types! {
    pub const ParachainBlocksPerBitcoinBlock: u64 = PER;
    pub const MinimumPeriod: u64 = 5;
}
impl btc_relay::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type ParachainBlocksPerBitcoinBlock = ParachainBlocksPerBitcoinBlock;
    type WeightInfo = ();
}
impl pallet_timestamp::Config for Test {
    type Moment = u64;
    type OnTimestampSet = ();
    type MinimumPeriod = MinimumPeriod;
    type WeightInfo = ();
}
impl security::Config for Test {
    type RuntimeEvent = RuntimeEvent;
    type WeightInfo = ();
}

pub struct Opt {
    pub k: u32,
    pub para: u64,
    pub no_difficulty: bool,
    pub no_inclusion: bool,
}

pub fn fresh(o: &Opt) -> sp_io::TestExternalities {
    frame_system::set_quiet(true);
    let mut st = frame_system::GenesisConfig::<Test>::default().build_storage().unwrap();
    btc_relay::GenesisConfig::<Test> {
        bitcoin_confirmations: o.k,
        parachain_confirmations: o.para,
        disable_difficulty_check: o.no_difficulty,
        disable_inclusion_check: o.no_inclusion,
        ..Default::default()
    }
    .assimilate_storage(&mut st)
    .unwrap();
    let mut e = sp_io::TestExternalities::from(st);
    e.execute_with(|| {
        System::set_block_number(1);
        Security::set_active_block_number(1);
    });
    e
}

/// the highest target of the main network
pub fn easiest() -> U256 {
    U256::from(0xffffu64) << 208
}

/// a header with the given hash. The relay checks a hash against the target where a header enters it (see C19); inside, the
/// hash field is what it goes by, so that no mining is needed here.
pub fn header(prev: H256Le, root: [u8; 32], target: U256, time: u32, serial: u64) -> BlockHeader {
    let mut hash = [0u8; 32];
    hash[..8].copy_from_slice(&(serial + 1).to_le_bytes());
    BlockHeader {
        merkle_root: H256Le::from_bytes_le(&root),
        target,
        timestamp: time,
        version: 4,
        hash: H256Le::from_bytes_le(&hash),
        hash_prev_block: prev,
        nonce: serial as u32,
    }
}

pub fn bare<T, E: std::fmt::Debug>(what: &str, r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{what}: {e:?}"))
}

/// what the relay has been given, as a tree
#[derive(Clone, Default)]
pub struct Tree {
    pub blocks: Vec<Node>,
    /// the tip of the main chain
    pub main: usize,
    pub k: u32,
    pub para: u64,
}
#[derive(Clone)]
pub struct Node {
    pub header: BlockHeader,
    pub parent: Option<usize>,
    pub height: u32,
    pub at: u64,
}
impl Tree {
    pub fn path(&self, mut i: usize) -> Vec<usize> {
        let mut p = vec![i];
        while let Some(q) = self.blocks[i].parent {
            p.push(q);
            i = q;
        }
        p
    }
    /// add a block; true when it made a fork the main chain
    pub fn add(&mut self, header: BlockHeader, parent: usize, at: u64) -> bool {
        let height = self.blocks[parent].height + 1;
        let i = self.blocks.len();
        self.blocks.push(Node { header, parent: Some(parent), height, at });
        let top = self.blocks[self.main].height;
        if parent == self.main {
            self.main = i;
        } else if height > top && height >= top + self.k {
            self.main = i;
            return true;
        }
        false
    }
    /// the highest block off the main chain
    pub fn rival(&self) -> Option<u32> {
        let on = self.on_main();
        (0..self.blocks.len()).filter(|i| !on[*i]).map(|i| self.blocks[i].height).max()
    }
    pub fn on_main(&self) -> Vec<bool> {
        let mut v = vec![false; self.blocks.len()];
        for i in self.path(self.main) {
            v[i] = true;
        }
        v
    }
    /// may a payment in block `i` be relied on?
    pub fn settled(&self, i: usize, confs: Option<u32>, now: u64) -> bool {
        let top = self.blocks[self.main].height;
        let b = &self.blocks[i];
        self.on_main()[i]
            && self.rival().map_or(true, |r| top >= r + self.k)
            && top + 1 >= b.height + confs.unwrap_or(self.k)
            && b.at + self.para <= now
    }
}
