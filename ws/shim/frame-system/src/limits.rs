use frame_support::dispatch::DispatchClass;
use frame_support::weights::Weight;
use shim_base::arith::Perbill;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BlockLength {
	pub max: [u32; 3],
}
impl Default for BlockLength {
	fn default() -> Self {
		BlockLength::max_with_normal_ratio(5 * 1024 * 1024, Perbill::from_percent(75))
	}
}
impl BlockLength {
	pub fn max_with_normal_ratio(max: u32, normal: Perbill) -> Self {
		BlockLength { max: [normal * max, max, max] }
	}
	pub fn max(v: u32) -> Self {
		BlockLength { max: [v; 3] }
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct WeightsPerClass {
	pub base_extrinsic: Weight,
	pub max_extrinsic: Option<Weight>,
	pub max_total: Option<Weight>,
	pub reserved: Option<Weight>,
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct BlockWeights {
	pub base_block: Weight,
	pub max_block: Weight,
	pub per_class: [WeightsPerClass; 3],
}
impl BlockWeights {
	pub fn get(&self, c: DispatchClass) -> &WeightsPerClass {
		&self.per_class[c as usize]
	}
	pub fn builder() -> BlockWeightsBuilder {
		BlockWeightsBuilder::default()
	}
	pub fn simple_max(w: Weight) -> Self {
		BlockWeights { max_block: w, ..Default::default() }
	}
}
/// The sizes of blocks are worked out and validated as the original builder does.
pub struct BlockWeightsBuilder(BlockWeights, Option<Perbill>);
impl Default for BlockWeightsBuilder {
	fn default() -> Self {
		use frame_support::weights::constants::{BlockExecutionWeight, ExtrinsicBaseWeight};
		let class = |limit| WeightsPerClass { base_extrinsic: ExtrinsicBaseWeight::get(), max_extrinsic: None, max_total: limit, reserved: limit };
		let some = Some(Weight::zero());
		BlockWeightsBuilder(
			BlockWeights { base_block: BlockExecutionWeight::get(), max_block: Weight::zero(), per_class: [class(some), class(some), class(None)] },
			None,
		)
	}
}
impl BlockWeightsBuilder {
	pub fn base_block(mut self, w: Weight) -> Self {
		self.0.base_block = w;
		self
	}
	pub fn for_class(mut self, classes: impl Classes, mut f: impl FnMut(&mut WeightsPerClass)) -> Self {
		for c in classes.list() {
			f(&mut self.0.per_class[c as usize]);
		}
		self
	}
	pub fn avg_block_initialization(mut self, rate: Perbill) -> Self {
		self.1 = Some(rate);
		self
	}
	pub fn build_or_panic(self) -> BlockWeights {
		let BlockWeightsBuilder(mut w, init) = self;
		w.max_block = w.per_class.iter().filter_map(|c| c.max_total).fold(w.max_block, |a, b| a.max(b));
		if let Some(init) = init.map(|rate| rate * w.max_block) {
			for c in &mut w.per_class {
				if c.max_extrinsic.is_none() {
					c.max_extrinsic = c.max_total.map(|x| x.saturating_sub(init).saturating_sub(c.base_extrinsic));
				}
			}
		}
		let (zero, all) = (Weight::zero(), Weight::from_parts(u64::MAX, u64::MAX));
		for c in &w.per_class {
			let total = c.max_total.unwrap_or(all);
			assert!((total.all_gt(w.base_block) && total.all_gt(c.base_extrinsic)) || total == zero, "too little room for a class");
			assert!(c.max_extrinsic.unwrap_or(zero).all_lte(total.saturating_sub(c.base_extrinsic)), "a single call exceeds its class");
			assert!(c.max_extrinsic.unwrap_or(all).all_gt(zero), "no call fits");
			let reserved = c.reserved.unwrap_or(all);
			assert!(reserved.all_gt(c.base_extrinsic) || reserved == zero, "reserved too little");
			assert!(w.max_block.all_gte(c.max_total.unwrap_or(zero)), "a class exceeds the block");
			assert!(w.max_block.all_gt(c.base_extrinsic + w.base_block), "no call fits into a block");
		}
		w
	}
}
pub trait Classes {
	fn list(self) -> Vec<DispatchClass>;
}
impl Classes for DispatchClass {
	fn list(self) -> Vec<DispatchClass> {
		vec![self]
	}
}
impl Classes for &'static [DispatchClass] {
	fn list(self) -> Vec<DispatchClass> {
		self.to_vec()
	}
}
