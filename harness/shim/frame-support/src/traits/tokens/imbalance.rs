use std::marker::PhantomData;
pub trait Imbalance<Balance>: Sized {
	fn peek(&self) -> Balance;
}
pub trait OnUnbalanced<Imbalance> {
	fn on_unbalanceds(all: impl Iterator<Item = Imbalance>) {
		all.for_each(Self::on_unbalanced)
	}
	fn on_unbalanced(i: Imbalance) {
		Self::on_nonzero_unbalanced(i)
	}
	fn on_nonzero_unbalanced(_: Imbalance) {}
}
impl<I> OnUnbalanced<I> for () {}
pub struct ResolveTo<A, F>(PhantomData<(A, F)>);
impl<AccountId: Eq, A: crate::traits::Get<AccountId>, F: super::fungible::Mutate<AccountId>>
	OnUnbalanced<super::fungible::Credit<AccountId, F>> for ResolveTo<A, F>
{
	fn on_unbalanced(credit: super::fungible::Credit<AccountId, F>) {
		let _ = F::mint_into(&A::get(), sp_runtime::SaturatedConversion::saturated_into(credit.amount()));
	}
}
pub struct ResolveAssetTo<A, F>(PhantomData<(A, F)>);
