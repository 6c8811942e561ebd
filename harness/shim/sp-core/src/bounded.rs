//! Length-bounded collections.
use crate::get::Get;
use codec::{Compact, Decode, Encode, EncodeLike, Error, Input, MaxEncodedLen};
use scale_info::{Type, TypeInfo};
use std::marker::PhantomData;
use std::ops::{Deref, Index, IndexMut};
use std::slice::SliceIndex;

pub struct BoundedVec<T, S>(Vec<T>, PhantomData<S>);
pub type WeakBoundedVec<T, S> = BoundedVec<T, S>;

impl<T, S> BoundedVec<T, S> {
	fn unchecked(v: Vec<T>) -> Self {
		Self(v, PhantomData)
	}
	pub fn new() -> Self {
		Self::unchecked(Vec::new())
	}
	pub fn into_inner(self) -> Vec<T> {
		self.0
	}
	pub fn as_slice(&self) -> &[T] {
		&self.0
	}
	pub fn as_bounded_slice(&self) -> &Self {
		self
	}
	pub fn remove(&mut self, i: usize) -> T {
		self.0.remove(i)
	}
	pub fn swap_remove(&mut self, i: usize) -> T {
		self.0.swap_remove(i)
	}
	pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn truncate(&mut self, n: usize) {
		self.0.truncate(n)
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
	pub fn pop(&mut self) -> Option<T> {
		self.0.pop()
	}
	pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
		self.0.iter_mut()
	}
	pub fn last_mut(&mut self) -> Option<&mut T> {
		self.0.last_mut()
	}
	pub fn get_mut<I: SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> {
		self.0.get_mut(i)
	}
	pub fn sort(&mut self)
	where
		T: Ord,
	{
		self.0.sort()
	}
	pub fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
		self.0.sort_by(f)
	}
	pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
		self.0.sort_by_key(f)
	}
	pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> {
		self.0.drain(r)
	}
}

impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn is_full(&self) -> bool {
		self.0.len() >= Self::bound()
	}
	pub fn with_bounded_capacity(n: usize) -> Self {
		Self::unchecked(Vec::with_capacity(n.min(Self::bound())))
	}
	pub fn with_max_capacity() -> Self {
		Self::new()
	}
	pub fn truncate_from(mut v: Vec<T>) -> Self {
		v.truncate(Self::bound());
		Self::unchecked(v)
	}
	pub fn defensive_truncate_from(v: Vec<T>) -> Self {
		Self::truncate_from(v)
	}
	pub fn force_from(v: Vec<T>, _scope: Option<&'static str>) -> Self {
		Self::unchecked(v)
	}
	pub fn try_push(&mut self, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.push(t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn force_push(&mut self, t: T) {
		self.try_push(t).map_err(|_| ()).expect("within bound")
	}
	pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.insert(i, t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn try_extend(&mut self, with: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
		if self.0.len().saturating_add(with.len()) <= Self::bound() {
			self.0.extend(with);
			Ok(())
		} else {
			Err(())
		}
	}
	pub fn try_append(&mut self, other: &mut Vec<T>) -> Result<(), ()> {
		if self.0.len().saturating_add(other.len()) <= Self::bound() {
			self.0.append(other);
			Ok(())
		} else {
			Err(())
		}
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> {
		f(&mut self.0);
		(self.0.len() <= Self::bound()).then_some(self)
	}
	pub fn try_collect<I: IntoIterator<Item = T>>(i: I) -> Result<Self, Vec<T>> {
		i.into_iter().collect::<Vec<_>>().try_into()
	}
}

impl<T, S> Default for BoundedVec<T, S> {
	fn default() -> Self {
		Self::new()
	}
}
impl<T: Clone, S> Clone for BoundedVec<T, S> {
	fn clone(&self) -> Self {
		Self::unchecked(self.0.clone())
	}
}
impl<T: std::fmt::Debug, S> std::fmt::Debug for BoundedVec<T, S> {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		self.0.fmt(f)
	}
}
impl<T: PartialEq, S, S2> PartialEq<BoundedVec<T, S2>> for BoundedVec<T, S> {
	fn eq(&self, o: &BoundedVec<T, S2>) -> bool {
		self.0 == o.0
	}
}
impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> {
	fn eq(&self, o: &Vec<T>) -> bool {
		&self.0 == o
	}
}
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> {
	fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
		self.0.partial_cmp(&o.0)
	}
}
impl<T: Ord, S> Ord for BoundedVec<T, S> {
	fn cmp(&self, o: &Self) -> std::cmp::Ordering {
		self.0.cmp(&o.0)
	}
}
impl<T: std::hash::Hash, S> std::hash::Hash for BoundedVec<T, S> {
	fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
		self.0.hash(h)
	}
}
impl<T, S> Deref for BoundedVec<T, S> {
	type Target = Vec<T>;
	fn deref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> AsRef<[T]> for BoundedVec<T, S> {
	fn as_ref(&self) -> &[T] {
		&self.0
	}
}
impl<T, S> AsRef<Vec<T>> for BoundedVec<T, S> {
	fn as_ref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> AsMut<[T]> for BoundedVec<T, S> {
	fn as_mut(&mut self) -> &mut [T] {
		&mut self.0
	}
}
impl<T, S, I: SliceIndex<[T]>> Index<I> for BoundedVec<T, S> {
	type Output = I::Output;
	fn index(&self, i: I) -> &Self::Output {
		&self.0[i]
	}
}
impl<T, S, I: SliceIndex<[T]>> IndexMut<I> for BoundedVec<T, S> {
	fn index_mut(&mut self, i: I) -> &mut Self::Output {
		&mut self.0[i]
	}
}
impl<T, S> IntoIterator for BoundedVec<T, S> {
	type Item = T;
	type IntoIter = std::vec::IntoIter<T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> {
	type Item = &'a T;
	type IntoIter = std::slice::Iter<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
	type Error = Vec<T>;
	fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
		if v.len() <= Self::bound() {
			Ok(Self::unchecked(v))
		} else {
			Err(v)
		}
	}
}
impl<T, S> From<BoundedVec<T, S>> for Vec<T> {
	fn from(v: BoundedVec<T, S>) -> Vec<T> {
		v.0
	}
}
impl<T: Encode, S> Encode for BoundedVec<T, S> {
	fn size_hint(&self) -> usize {
		self.0.size_hint()
	}
	fn encode_to<W: codec::Output + ?Sized>(&self, w: &mut W) {
		self.0.encode_to(w)
	}
}
impl<T: Encode, S> EncodeLike for BoundedVec<T, S> {}
impl<T: Encode, S> EncodeLike<Vec<T>> for BoundedVec<T, S> {}
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let v = Vec::<T>::decode(input)?;
		if v.len() > S::get() as usize {
			return Err("BoundedVec exceeds its limit".into());
		}
		Ok(Self::unchecked(v))
	}
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S>
where
	Self: Encode,
{
	fn max_encoded_len() -> usize {
		Compact(S::get())
			.encoded_size()
			.saturating_add((S::get() as usize).saturating_mul(T::max_encoded_len()))
	}
}
impl<T: TypeInfo + 'static, S: 'static> TypeInfo for BoundedVec<T, S> {
	type Identity = Vec<T>;
	fn type_info() -> Type {
		Vec::<T>::type_info()
	}
}
impl<T: Encode, S> codec::DecodeLength for BoundedVec<T, S> {
	fn len(b: &[u8]) -> Result<usize, Error> {
		<Vec<T> as codec::DecodeLength>::len(b)
	}
}
impl<T: serde::Serialize, S> serde::Serialize for BoundedVec<T, S> {
	fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
		self.0.serialize(s)
	}
}
impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for BoundedVec<T, S> {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let v = Vec::<T>::deserialize(d)?;
		Self::try_from(v).map_err(|_| serde::de::Error::custom("out of bounds"))
	}
}

#[macro_export]
macro_rules! bounded_vec {
	($($v:expr),* $(,)?) => { $crate::BoundedVec::try_from(vec![$($v),*]).map_err(|_| ()).expect("within bound") };
	($v:expr; $n:expr) => { $crate::BoundedVec::try_from(vec![$v; $n]).map_err(|_| ()).expect("within bound") };
}
