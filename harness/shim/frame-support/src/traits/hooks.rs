use crate::weights::Weight;

pub trait OnInitialize<BlockNumber> {
	fn on_initialize(_n: BlockNumber) -> Weight {
		Weight::zero()
	}
}
pub trait OnFinalize<BlockNumber> {
	fn on_finalize(_n: BlockNumber) {}
}
pub trait OnIdle<BlockNumber> {
	fn on_idle(_n: BlockNumber, _w: Weight) -> Weight {
		Weight::zero()
	}
}
pub trait OnPoll<BlockNumber> {}
impl<N> OnInitialize<N> for () {}
impl<N> OnFinalize<N> for () {}
impl<N> OnIdle<N> for () {}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
}
#[impl_trait_for_tuples::impl_for_tuples(0, 12)]
impl OnRuntimeUpgrade for Tuple {
	fn on_runtime_upgrade() -> Weight {
		let mut w = Weight::zero();
		for_tuples!( #( w = w.saturating_add(Tuple::on_runtime_upgrade()); )* );
		w
	}
}
pub trait OnGenesis {
	fn on_genesis() {}
}
pub trait PreInherents {}
pub trait PostInherents {}
pub trait PostTransactions {}
pub trait Hooks<BlockNumber> {
	fn on_initialize(_n: BlockNumber) -> Weight {
		Weight::zero()
	}
	fn on_finalize(_n: BlockNumber) {}
	fn on_idle(_n: BlockNumber, _w: Weight) -> Weight {
		Weight::zero()
	}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn offchain_worker(_n: BlockNumber) {}
	fn integrity_test() {}
}
pub trait BuildGenesisConfig: Default {
	fn build(&self);
}
impl BuildGenesisConfig for () {
	fn build(&self) {}
}
pub trait OnTimestampSet<Moment> {
	fn on_timestamp_set(moment: Moment);
}
impl<M> OnTimestampSet<M> for () {
	fn on_timestamp_set(_: M) {}
}
