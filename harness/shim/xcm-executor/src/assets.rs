use std::collections::{BTreeMap, BTreeSet};
use xcm::latest::prelude::*;

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct AssetsInHolding {
	pub fungible: BTreeMap<AssetId, u128>,
	pub non_fungible: BTreeSet<(AssetId, AssetInstance)>,
}
impl From<Asset> for AssetsInHolding {
	fn from(a: Asset) -> Self {
		let mut x = Self::new();
		x.subsume(a);
		x
	}
}
impl From<Vec<Asset>> for AssetsInHolding {
	fn from(v: Vec<Asset>) -> Self {
		let mut x = Self::new();
		v.into_iter().for_each(|a| x.subsume(a));
		x
	}
}
impl From<Assets> for AssetsInHolding {
	fn from(v: Assets) -> Self {
		v.into_inner().into()
	}
}
impl AssetsInHolding {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn len(&self) -> usize {
		self.fungible.len() + self.non_fungible.len()
	}
	pub fn is_empty(&self) -> bool {
		self.len() == 0
	}
	pub fn subsume(&mut self, a: Asset) {
		match a.fun {
			Fungibility::Fungible(n) => {
				let e = self.fungible.entry(a.id).or_default();
				*e = e.saturating_add(n);
			}
			Fungibility::NonFungible(i) => {
				self.non_fungible.insert((a.id, i));
			}
		}
	}
	pub fn into_assets(self) -> Vec<Asset> {
		self.fungible
			.into_iter()
			.map(|(id, n)| Asset { id, fun: Fungibility::Fungible(n) })
			.chain(self.non_fungible.into_iter().map(|(id, i)| Asset { id, fun: Fungibility::NonFungible(i) }))
			.collect()
	}
	pub fn fungible_assets(&self) -> Vec<Asset> {
		self.fungible.iter().map(|(id, n)| Asset { id: id.clone(), fun: Fungibility::Fungible(*n) }).collect()
	}
	/// Take exactly this, or nothing.
	pub fn try_take(&mut self, a: Asset) -> Option<AssetsInHolding> {
		match a.fun {
			Fungibility::Fungible(n) => {
				let have = *self.fungible.get(&a.id)?;
				if have < n {
					return None;
				}
				if have == n {
					self.fungible.remove(&a.id);
				} else {
					self.fungible.insert(a.id.clone(), have - n);
				}
			}
			Fungibility::NonFungible(i) =>
				if !self.non_fungible.remove(&(a.id.clone(), i)) {
					return None;
				},
		}
		Some(a.into())
	}
	/// Take as much of what the filter names as there is.
	pub fn saturating_take(&mut self, f: AssetFilter) -> AssetsInHolding {
		let mut out = Self::new();
		match f {
			AssetFilter::Wild(WildAsset::All) => out = std::mem::take(self),
			AssetFilter::Wild(WildAsset::AllCounted(n)) => self.take_where(&mut out, n as usize, |_, _| true),
			AssetFilter::Wild(WildAsset::AllOf { id, fun }) =>
				self.take_where(&mut out, usize::MAX, |i, fungible| *i == id && fungible == matches!(fun, WildFungibility::Fungible)),
			AssetFilter::Wild(WildAsset::AllOfCounted { id, fun, count }) =>
				self.take_where(&mut out, count as usize, |i, fungible| *i == id && fungible == matches!(fun, WildFungibility::Fungible)),
			AssetFilter::Definite(assets) =>
				for a in assets.into_inner() {
					let got = match a.fun {
						Fungibility::Fungible(n) => {
							let have = self.fungible.get(&a.id).copied().unwrap_or(0);
							if have == 0 {
								continue;
							}
							self.try_take(Asset { id: a.id, fun: Fungibility::Fungible(n.min(have)) })
						}
						_ => self.try_take(a),
					};
					got.into_iter().flat_map(|x| x.into_assets()).for_each(|x| out.subsume(x));
				},
		}
		out
	}
	fn take_where(&mut self, out: &mut Self, most: usize, keep: impl Fn(&AssetId, bool) -> bool) {
		let ids: Vec<_> = self.fungible.keys().filter(|i| keep(i, true)).take(most).cloned().collect();
		for i in ids {
			let n = self.fungible.remove(&i).unwrap_or(0);
			out.fungible.insert(i, n);
		}
		let left = most.saturating_sub(out.len());
		let items: Vec<_> = self.non_fungible.iter().filter(|(i, _)| keep(i, false)).take(left).cloned().collect();
		for i in items {
			self.non_fungible.remove(&i);
			out.non_fungible.insert(i);
		}
	}
}
