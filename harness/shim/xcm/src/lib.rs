//! Stand-in for staging-xcm: locations, junctions and assets.
use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use std::sync::Arc;

pub mod opaque {}
pub mod v4 {
	pub use super::*;
	pub use super::latest::prelude;
}
pub mod v3 {}
pub mod prelude {
	pub use crate::latest::prelude::*;
	pub use crate::{VersionedAssetId, VersionedAssets, VersionedLocation, VersionedXcm};
}
pub mod latest {
	pub use super::*;
	pub mod prelude {
		pub use super::super::{
			send_xcm, validate_send, Ancestor, AncestorThen, Asset, AssetFilter, AssetFilter::*, AssetId, AssetInstance,
			AssetInstance::*, Assets, BodyId, BodyPart, Error as XcmError, ExecuteXcm, Fungibility, Fungibility::*,
			Instruction, Instruction::*, InteriorLocation, Junction, Junction::*, Junctions, Junctions::Here, Location,
			MaybeErrorCode, MaybeErrorCode::*, NetworkId, NetworkId::*, OriginKind, Outcome, PalletInfo, Parent, ParentThen,
			PreparedMessage, QueryId, QueryResponseInfo, Reanchorable, Response, Response::*, SendError, SendResult,
			SendXcm, Weight, WeightLimit, WeightLimit::*, WildAsset, WildAsset::*,
			WildFungibility, WildFungibility::{Fungible as WildFungible, NonFungible as WildNonFungible}, Xcm, XcmContext,
			XcmHash, XcmWeightInfo, Result as XcmResult, VERSION as XCM_VERSION,
		};
	}
}

pub const VERSION: u32 = 4;
pub type XcmHash = [u8; 32];

#[derive(
	Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, Hash, serde::Serialize,
	serde::Deserialize,
)]
pub enum NetworkId {
	ByGenesis([u8; 32]),
	ByFork {
		block_number: u64,
		block_hash: [u8; 32],
	},
	Polkadot,
	Kusama,
	Westend,
	Rococo,
	Wococo,
	Ethereum {
		#[codec(compact)]
		chain_id: u64,
	},
	BitcoinCore,
	BitcoinCash,
	PolkadotBulletin,
}

#[derive(
	Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, Hash, serde::Serialize,
	serde::Deserialize,
)]
pub enum BodyId {
	Unit,
	Moniker([u8; 4]),
	Index(#[codec(compact)] u32),
	Executive,
	Technical,
	Legislative,
	Judicial,
	Defense,
	Administration,
	Treasury,
}
#[derive(
	Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, Hash, serde::Serialize,
	serde::Deserialize,
)]
pub enum BodyPart {
	Voice,
	Members {
		#[codec(compact)]
		count: u32,
	},
	Fraction {
		#[codec(compact)]
		nom: u32,
		#[codec(compact)]
		denom: u32,
	},
	AtLeastProportion {
		#[codec(compact)]
		nom: u32,
		#[codec(compact)]
		denom: u32,
	},
	MoreThanProportion {
		#[codec(compact)]
		nom: u32,
		#[codec(compact)]
		denom: u32,
	},
}

#[derive(
	Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, Hash, serde::Serialize,
	serde::Deserialize,
)]
pub enum Junction {
	Parachain(#[codec(compact)] u32),
	AccountId32 {
		network: Option<NetworkId>,
		id: [u8; 32],
	},
	AccountIndex64 {
		network: Option<NetworkId>,
		#[codec(compact)]
		index: u64,
	},
	AccountKey20 {
		network: Option<NetworkId>,
		key: [u8; 20],
	},
	PalletInstance(u8),
	GeneralIndex(#[codec(compact)] u128),
	GeneralKey {
		length: u8,
		data: [u8; 32],
	},
	OnlyChild,
	Plurality {
		id: BodyId,
		part: BodyPart,
	},
	GlobalConsensus(NetworkId),
}
impl Junction {
	pub fn into_location(self) -> Location {
		Location::new(0, [self])
	}
	pub fn into_exterior(self, n: u8) -> Location {
		Location::new(n, [self])
	}
	pub fn remove_network_id(&mut self) {
		use Junction::*;
		match self {
			AccountId32 { network, .. } | AccountIndex64 { network, .. } | AccountKey20 { network, .. } => *network = None,
			_ => {}
		}
	}
}
impl From<NetworkId> for Junction {
	fn from(n: NetworkId) -> Self {
		Self::GlobalConsensus(n)
	}
}
impl From<[u8; 32]> for Junction {
	fn from(id: [u8; 32]) -> Self {
		Self::AccountId32 { network: None, id }
	}
}
impl From<u128> for Junction {
	fn from(i: u128) -> Self {
		Self::GeneralIndex(i)
	}
}

#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, Hash)]
pub enum Junctions {
	Here,
	X1(Arc<[Junction; 1]>),
	X2(Arc<[Junction; 2]>),
	X3(Arc<[Junction; 3]>),
	X4(Arc<[Junction; 4]>),
	X5(Arc<[Junction; 5]>),
	X6(Arc<[Junction; 6]>),
	X7(Arc<[Junction; 7]>),
	X8(Arc<[Junction; 8]>),
}
pub type InteriorLocation = Junctions;
impl Junctions {
	pub const fn here() -> Self {
		Junctions::Here
	}
	pub fn as_slice(&self) -> &[Junction] {
		match self {
			Junctions::Here => &[],
			Junctions::X1(a) => &a[..],
			Junctions::X2(a) => &a[..],
			Junctions::X3(a) => &a[..],
			Junctions::X4(a) => &a[..],
			Junctions::X5(a) => &a[..],
			Junctions::X6(a) => &a[..],
			Junctions::X7(a) => &a[..],
			Junctions::X8(a) => &a[..],
		}
	}
	pub fn from_slice(s: &[Junction]) -> Option<Self> {
		Some(match s.len() {
			0 => Junctions::Here,
			1 => Junctions::X1(Arc::new(s.try_into().ok()?)),
			2 => Junctions::X2(Arc::new(s.try_into().ok()?)),
			3 => Junctions::X3(Arc::new(s.try_into().ok()?)),
			4 => Junctions::X4(Arc::new(s.try_into().ok()?)),
			5 => Junctions::X5(Arc::new(s.try_into().ok()?)),
			6 => Junctions::X6(Arc::new(s.try_into().ok()?)),
			7 => Junctions::X7(Arc::new(s.try_into().ok()?)),
			8 => Junctions::X8(Arc::new(s.try_into().ok()?)),
			_ => return None,
		})
	}
	pub fn len(&self) -> usize {
		self.as_slice().len()
	}
	pub fn is_empty(&self) -> bool {
		self.len() == 0
	}
	pub fn iter(&self) -> std::slice::Iter<'_, Junction> {
		self.as_slice().iter()
	}
	pub fn first(&self) -> Option<&Junction> {
		self.as_slice().first()
	}
	pub fn last(&self) -> Option<&Junction> {
		self.as_slice().last()
	}
	pub fn at(&self, i: usize) -> Option<&Junction> {
		self.as_slice().get(i)
	}
	pub fn push(&mut self, j: impl Into<Junction>) -> std::result::Result<(), Junction> {
		let j = j.into();
		let mut v = self.as_slice().to_vec();
		v.push(j);
		*self = Junctions::from_slice(&v).ok_or(j)?;
		Ok(())
	}
	pub fn pushed_with(self, j: impl Into<Junction>) -> std::result::Result<Self, (Self, Junction)> {
		let mut s = self.clone();
		match s.push(j) {
			Ok(()) => Ok(s),
			Err(j) => Err((self, j)),
		}
	}
	pub fn into_location(self) -> Location {
		Location { parents: 0, interior: self }
	}
	pub fn starts_with(&self, prefix: &Junctions) -> bool {
		self.as_slice().starts_with(prefix.as_slice())
	}
}
macro_rules! from_arrays { ($($n:literal),*) => { $(
	impl From<[Junction; $n]> for Junctions { fn from(a: [Junction; $n]) -> Self { Junctions::from_slice(&a).expect("short") } }
	impl From<[Junction; $n]> for Location { fn from(a: [Junction; $n]) -> Self { Location { parents: 0, interior: a.into() } } }
)* } }
from_arrays!(1, 2, 3, 4, 5, 6, 7, 8);
impl From<[Junction; 0]> for Junctions {
	fn from(_: [Junction; 0]) -> Self {
		Junctions::Here
	}
}
impl From<Junction> for Junctions {
	fn from(j: Junction) -> Self {
		[j].into()
	}
}
impl<'a> IntoIterator for &'a Junctions {
	type Item = &'a Junction;
	type IntoIter = std::slice::Iter<'a, Junction>;
	fn into_iter(self) -> Self::IntoIter {
		self.iter()
	}
}
impl IntoIterator for Junctions {
	type Item = Junction;
	type IntoIter = std::vec::IntoIter<Junction>;
	fn into_iter(self) -> Self::IntoIter {
		self.as_slice().to_vec().into_iter()
	}
}

#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, Hash)]
pub struct Location {
	pub parents: u8,
	pub interior: Junctions,
}
impl Default for Location {
	fn default() -> Self {
		Self::here()
	}
}
impl Location {
	pub fn new(parents: u8, interior: impl Into<Junctions>) -> Self {
		Self { parents, interior: interior.into() }
	}
	pub const fn here() -> Self {
		Self { parents: 0, interior: Junctions::Here }
	}
	pub const fn parent() -> Self {
		Self { parents: 1, interior: Junctions::Here }
	}
	pub const fn ancestor(parents: u8) -> Self {
		Self { parents, interior: Junctions::Here }
	}
	pub fn is_here(&self) -> bool {
		self.parents == 0 && self.interior.len() == 0
	}
	pub fn interior(&self) -> &Junctions {
		&self.interior
	}
	pub fn interior_mut(&mut self) -> &mut Junctions {
		&mut self.interior
	}
	pub const fn parent_count(&self) -> u8 {
		self.parents
	}
	pub fn parents_and_interior(self) -> (u8, Junctions) {
		(self.parents, self.interior)
	}
	pub fn unpack(&self) -> (u8, &[Junction]) {
		(self.parents, self.interior.as_slice())
	}
	pub fn len(&self) -> usize {
		self.parents as usize + self.interior.len()
	}
	pub fn is_empty(&self) -> bool {
		self.len() == 0
	}
	pub fn first_interior(&self) -> Option<&Junction> {
		self.interior.first()
	}
	pub fn last(&self) -> Option<&Junction> {
		self.interior.last()
	}
	pub fn at(&self, i: usize) -> Option<&Junction> {
		let p = self.parents as usize;
		if i < p {
			return None;
		}
		self.interior.at(i - p)
	}
	pub fn push_interior(&mut self, j: impl Into<Junction>) -> std::result::Result<(), Junction> {
		self.interior.push(j)
	}
	pub fn pushed_with_interior(self, j: impl Into<Junction>) -> std::result::Result<Self, (Self, Junction)> {
		match self.interior.clone().pushed_with(j) {
			Ok(i) => Ok(Location { interior: i, parents: self.parents }),
			Err((i, j)) => Err((Location { interior: i, parents: self.parents }, j)),
		}
	}
	pub fn starts_with(&self, prefix: &Location) -> bool {
		self.parents == prefix.parents && self.interior.starts_with(&prefix.interior)
	}
	pub fn contains_parents_only(&self, n: u8) -> bool {
		matches!(self.interior, Junctions::Here) && self.parents == n
	}
	pub fn chain_location(&self) -> Location {
		let mut clone = self.clone();
		let mut v = Vec::new();
		for j in clone.interior.iter() {
			match j {
				Junction::GlobalConsensus(_) | Junction::Parachain(_) => v.push(*j),
				_ => break,
			}
		}
		clone.interior = Junctions::from_slice(&v).expect("short");
		clone
	}
}
impl From<Junction> for Location {
	fn from(j: Junction) -> Self {
		Location::new(0, [j])
	}
}
impl From<Junctions> for Location {
	fn from(interior: Junctions) -> Self {
		Location { parents: 0, interior }
	}
}
impl From<(u8, Junctions)> for Location {
	fn from((parents, interior): (u8, Junctions)) -> Self {
		Location { parents, interior }
	}
}
impl<const N: usize> From<(u8, [Junction; N])> for Location
where
	Junctions: From<[Junction; N]>,
{
	fn from((parents, i): (u8, [Junction; N])) -> Self {
		Location { parents, interior: i.into() }
	}
}
impl TryFrom<Location> for Junctions {
	type Error = Location;
	fn try_from(x: Location) -> std::result::Result<Self, Location> {
		if x.parents > 0 {
			Err(x)
		} else {
			Ok(x.interior)
		}
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ancestor(pub u8);
impl From<Ancestor> for Location {
	fn from(a: Ancestor) -> Self {
		Location::ancestor(a.0)
	}
}
pub struct AncestorThen<Interior>(pub u8, pub Interior);
impl<I: Into<Junctions>> From<AncestorThen<I>> for Location {
	fn from(a: AncestorThen<I>) -> Self {
		Location { parents: a.0, interior: a.1.into() }
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Parent;
impl From<Parent> for Location {
	fn from(_: Parent) -> Self {
		Location::parent()
	}
}
pub struct ParentThen(pub Junctions);
impl From<ParentThen> for Location {
	fn from(p: ParentThen) -> Self {
		Location { parents: 1, interior: p.0 }
	}
}
pub trait Reanchorable {}

#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub struct AssetId(pub Location);
impl<T: Into<Location>> From<T> for AssetId {
	fn from(x: T) -> Self {
		Self(x.into())
	}
}
#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum AssetInstance {
	Undefined,
	Index(#[codec(compact)] u128),
	Array4([u8; 4]),
	Array8([u8; 8]),
	Array16([u8; 16]),
	Array32([u8; 32]),
}
#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum Fungibility {
	Fungible(#[codec(compact)] u128),
	NonFungible(AssetInstance),
}
impl From<u128> for Fungibility {
	fn from(a: u128) -> Self {
		Fungibility::Fungible(a)
	}
}
#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub struct Asset {
	pub id: AssetId,
	pub fun: Fungibility,
}
impl<A: Into<AssetId>, B: Into<Fungibility>> From<(A, B)> for Asset {
	fn from((id, fun): (A, B)) -> Self {
		Self { id: id.into(), fun: fun.into() }
	}
}
mod program;
pub use program::*;
