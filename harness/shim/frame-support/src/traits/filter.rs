use std::marker::PhantomData;

pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
pub trait ContainsPair<A, B> {
	fn contains(a: &A, b: &B) -> bool;
}
#[impl_trait_for_tuples::impl_for_tuples(0, 12)]
impl<T> Contains<T> for Tuple {
	fn contains(t: &T) -> bool {
		for_tuples!( #( if Tuple::contains(t) { return true } )* );
		false
	}
}
#[impl_trait_for_tuples::impl_for_tuples(0, 12)]
impl<A, B> ContainsPair<A, B> for Tuple {
	fn contains(a: &A, b: &B) -> bool {
		for_tuples!( #( if Tuple::contains(a, b) { return true } )* );
		false
	}
}
pub enum Everything {}
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
impl<A, B> ContainsPair<A, B> for Everything {
	fn contains(_: &A, _: &B) -> bool {
		true
	}
}
pub enum Nothing {}
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
impl<A, B> ContainsPair<A, B> for Nothing {
	fn contains(_: &A, _: &B) -> bool {
		false
	}
}
pub struct EverythingBut<Exclude>(PhantomData<Exclude>);
impl<T, E: Contains<T>> Contains<T> for EverythingBut<E> {
	fn contains(t: &T) -> bool {
		!E::contains(t)
	}
}
pub struct TheseExcept<These, Except>(PhantomData<(These, Except)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for TheseExcept<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && !B::contains(t)
	}
}
pub struct InsideBoth<These, Those>(PhantomData<(These, Those)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && B::contains(t)
	}
}
pub struct Equals<T>(PhantomData<T>);
impl<X: PartialEq, T: super::Get<X>> Contains<X> for Equals<T> {
	fn contains(t: &X) -> bool {
		t == &T::get()
	}
}
pub struct FromContains<CA, CB>(PhantomData<(CA, CB)>);
impl<A, B, CA: Contains<A>, CB: Contains<B>> ContainsPair<A, B> for FromContains<CA, CB> {
	fn contains(a: &A, b: &B) -> bool {
		CA::contains(a) && CB::contains(b)
	}
}
pub trait SortedMembers<T: Ord> {
	fn contains(t: &T) -> bool {
		Self::sorted_members().binary_search(t).is_ok()
	}
	fn sorted_members() -> Vec<T>;
	fn count() -> usize {
		Self::sorted_members().len()
	}
}
pub struct IsInVec<T>(PhantomData<T>);
impl<X: Ord + PartialOrd, T: super::Get<Vec<X>>> SortedMembers<X> for IsInVec<T> {
	fn sorted_members() -> Vec<X> {
		let mut r = T::get();
		r.sort();
		r
	}
}
pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, t: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
impl<T> InstanceFilter<T> for () {
	fn filter(&self, _: &T) -> bool {
		true
	}
	fn is_superset(&self, _: &Self) -> bool {
		true
	}
}
pub trait ContainsLengthBound {
	fn min_len() -> usize;
	fn max_len() -> usize;
}
