use frame_support::weights::Weight;
#[derive(Clone, Debug, Default)]
pub struct BlockWeights {
    pub base_block: Weight,
    pub max_block: Weight,
}
impl BlockWeights {
    pub fn simple_max(max_block: Weight) -> Self {
        Self { base_block: Weight::zero(), max_block }
    }
}
#[derive(Clone, Debug, Default)]
pub struct BlockLength {}
