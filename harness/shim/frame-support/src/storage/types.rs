use super::{storage_prefix, unhashed};
use crate::hash::{ReversibleStorageHasher, StorageHasher};
use crate::traits::{Get, GetDefault, StorageInstance};
use codec::{Decode, DecodeLength, Encode, EncodeLike, FullCodec};
use sp_core::externalities;
use std::marker::PhantomData;

pub struct StorageEntryMetadataBuilder;

pub trait QueryKindTrait<Value, OnEmpty> {
	type Query: 'static;
	fn from_optional_value_to_query(v: Option<Value>) -> Self::Query;
	fn from_query_to_optional_value(v: Self::Query) -> Option<Value>;
}
pub struct OptionQuery;
impl<V: 'static, E> QueryKindTrait<V, E> for OptionQuery {
	type Query = Option<V>;
	fn from_optional_value_to_query(v: Option<V>) -> Option<V> {
		v
	}
	fn from_query_to_optional_value(v: Option<V>) -> Option<V> {
		v
	}
}
pub struct ValueQuery;
impl<V: 'static, E: Get<V>> QueryKindTrait<V, E> for ValueQuery {
	type Query = V;
	fn from_optional_value_to_query(v: Option<V>) -> V {
		v.unwrap_or_else(E::get)
	}
	fn from_query_to_optional_value(v: V) -> Option<V> {
		Some(v)
	}
}
pub struct ResultQuery<Error>(PhantomData<Error>);
impl<V: 'static, Err: 'static, E: Get<Result<V, Err>>> QueryKindTrait<V, E> for ResultQuery<Err> {
	type Query = Result<V, Err>;
	fn from_optional_value_to_query(v: Option<V>) -> Result<V, Err> {
		match v {
			Some(v) => Ok(v),
			None => E::get(),
		}
	}
	fn from_query_to_optional_value(v: Result<V, Err>) -> Option<V> {
		v.ok()
	}
}

fn prefix<P: StorageInstance>() -> Vec<u8> {
	storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes()).to_vec()
}
fn put_opt<V: Encode>(k: &[u8], v: Option<V>) {
	match v {
		Some(v) => unhashed::put(k, &v),
		None => unhashed::kill(k),
	}
}
/// Keys below a prefix, with the prefix cut off. Collected first, so that the storage may change
/// while iterating.
fn keys_below(p: &[u8]) -> Vec<Vec<u8>> {
	let mut out = vec![];
	let mut k = p.to_vec();
	while let Some(n) = externalities::next_key(&k) {
		if !n.starts_with(p) {
			break;
		}
		out.push(n[p.len()..].to_vec());
		k = n;
	}
	out
}
fn append_raw<I: Encode>(k: &[u8], item: I) {
	// a SCALE vector: compact length, then the items
	let mut v = unhashed::get_raw(k).unwrap_or_else(|| vec![0]);
	let mut rest = &v[..];
	let n = codec::Compact::<u32>::decode(&mut rest).expect("vector").0;
	let mut out = codec::Compact(n + 1).encode();
	out.extend_from_slice(rest);
	item.encode_to(&mut out);
	v = out;
	unhashed::put_raw(k, &v);
}

macro_rules! access {
	// the part all kinds share, given the way a key is computed
	($V:ident, $Q:ident, $E:ident, [$($karg:ident : $kty:ident),*], $key:ident, [$($kb:tt)*]) => {
		pub fn contains_key<$($kb)*>($($karg: $kty),*) -> bool { externalities::exists(&Self::$key($($karg),*)) }
		pub fn get<$($kb)*>($($karg: $kty),*) -> $Q::Query { $Q::from_optional_value_to_query(unhashed::get(&Self::$key($($karg),*))) }
		pub fn try_get<$($kb)*>($($karg: $kty),*) -> Result<$V, ()> { unhashed::get(&Self::$key($($karg),*)).ok_or(()) }
		pub fn take<$($kb)*>($($karg: $kty),*) -> $Q::Query {
			let k = Self::$key($($karg),*);
			let v = unhashed::get(&k);
			unhashed::kill(&k);
			$Q::from_optional_value_to_query(v)
		}
		pub fn set<$($kb)*>($($karg: $kty,)* q: $Q::Query) { put_opt(&Self::$key($($karg),*), $Q::from_query_to_optional_value(q)) }
		pub fn insert<$($kb)*, VArg: EncodeLike<$V>>($($karg: $kty,)* v: VArg) { unhashed::put(&Self::$key($($karg),*), &v) }
		pub fn remove<$($kb)*>($($karg: $kty),*) { unhashed::kill(&Self::$key($($karg),*)) }
		pub fn mutate<$($kb)*, R, F: FnOnce(&mut $Q::Query) -> R>($($karg: $kty,)* f: F) -> R {
			Self::try_mutate($($karg,)* |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|e| match e {})
		}
		pub fn try_mutate<$($kb)*, R, Err, F: FnOnce(&mut $Q::Query) -> Result<R, Err>>($($karg: $kty,)* f: F) -> Result<R, Err> {
			let k = Self::$key($($karg),*);
			let mut q = $Q::from_optional_value_to_query(unhashed::get(&k));
			let r = f(&mut q);
			if r.is_ok() { put_opt(&k, $Q::from_query_to_optional_value(q)); }
			r
		}
		pub fn mutate_exists<$($kb)*, R, F: FnOnce(&mut Option<$V>) -> R>($($karg: $kty,)* f: F) -> R {
			Self::try_mutate_exists($($karg,)* |v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|e| match e {})
		}
		pub fn mutate_extant<$($kb)*, R: Default, F: FnOnce(&mut $V) -> R>($($karg: $kty,)* f: F) -> R {
			Self::mutate_exists($($karg,)* |v| match v { Some(v) => f(v), None => R::default() })
		}
		pub fn try_mutate_exists<$($kb)*, R, Err, F: FnOnce(&mut Option<$V>) -> Result<R, Err>>($($karg: $kty,)* f: F) -> Result<R, Err> {
			let k = Self::$key($($karg),*);
			let mut q = unhashed::get(&k);
			let r = f(&mut q);
			if r.is_ok() { put_opt(&k, q); }
			r
		}
		pub fn append<$($kb)*, Item: Encode, ItemLike: EncodeLike<Item>>($($karg: $kty,)* item: ItemLike) { append_raw(&Self::$key($($karg),*), item) }
		pub fn decode_len<$($kb)*>($($karg: $kty),*) -> Option<usize> where $V: DecodeLength {
			unhashed::get_raw(&Self::$key($($karg),*)).and_then(|v| <$V as DecodeLength>::len(&v).ok())
		}
	};
}

// ------------------------------------------------------------------ value

pub struct StorageValue<Prefix, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(PhantomData<(Prefix, Value, QueryKind, OnEmpty)>);
impl<P: StorageInstance, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E: 'static> StorageValue<P, V, Q, E> {
	pub fn hashed_key() -> [u8; 32] {
		storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes())
	}
	pub fn exists() -> bool {
		externalities::exists(&Self::hashed_key())
	}
	pub fn get() -> Q::Query {
		Q::from_optional_value_to_query(unhashed::get(&Self::hashed_key()))
	}
	pub fn try_get() -> Result<V, ()> {
		unhashed::get(&Self::hashed_key()).ok_or(())
	}
	pub fn take() -> Q::Query {
		let v = unhashed::get(&Self::hashed_key());
		Self::kill();
		Q::from_optional_value_to_query(v)
	}
	pub fn put<A: EncodeLike<V>>(v: A) {
		unhashed::put(&Self::hashed_key(), &v)
	}
	pub fn set(q: Q::Query) {
		put_opt(&Self::hashed_key(), Q::from_query_to_optional_value(q))
	}
	pub fn kill() {
		unhashed::kill(&Self::hashed_key())
	}
	pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
		Self::try_mutate(|v| Ok::<R, crate::Never>(f(v))).unwrap_or_else(|e| match e {})
	}
	pub fn try_mutate<R, Err, F: FnOnce(&mut Q::Query) -> Result<R, Err>>(f: F) -> Result<R, Err> {
		let mut q = Self::get();
		let r = f(&mut q);
		if r.is_ok() {
			Self::set(q);
		}
		r
	}
	pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
		let mut v = unhashed::get(&Self::hashed_key());
		let r = f(&mut v);
		put_opt(&Self::hashed_key(), v);
		r
	}
	pub fn append<Item: Encode, ItemLike: EncodeLike<Item>>(item: ItemLike) {
		append_raw(&Self::hashed_key(), item)
	}
	pub fn decode_len() -> Option<usize>
	where
		V: DecodeLength,
	{
		unhashed::get_raw(&Self::hashed_key()).and_then(|v| <V as DecodeLength>::len(&v).ok())
	}
}

// ------------------------------------------------------------------ map

pub struct StorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
	PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>,
);
impl<P: StorageInstance, H: StorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E: 'static, M> StorageMap<P, H, K, V, Q, E, M> {
	pub fn hashed_key_for<KArg: EncodeLike<K>>(key: KArg) -> Vec<u8> {
		let mut p = prefix::<P>();
		p.extend_from_slice(H::hash(&key.encode()).as_ref());
		p
	}
	access!(V, Q, E, [key: KArg], hashed_key_for, [KArg: EncodeLike<K>]);
	pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
		let (a, b) = (Self::hashed_key_for(a), Self::hashed_key_for(b));
		let (x, y): (Option<V>, Option<V>) = (unhashed::get(&a), unhashed::get(&b));
		put_opt(&a, y);
		put_opt(&b, x);
	}
	pub fn iter_values() -> std::vec::IntoIter<V> {
		let p = prefix::<P>();
		keys_below(&p)
			.into_iter()
			.filter_map(|k| unhashed::get::<V>(&[&p[..], &k[..]].concat()))
			.collect::<Vec<_>>()
			.into_iter()
	}
	pub fn clear(limit: u32, _: Option<&[u8]>) -> u32 {
		externalities::clear_prefix(&prefix::<P>(), Some(limit))
	}
	pub fn remove_all(limit: Option<u32>) -> u32 {
		externalities::clear_prefix(&prefix::<P>(), limit)
	}
	pub fn translate_values<O: Decode, F: FnMut(O) -> Option<V>>(mut f: F) {
		let p = prefix::<P>();
		for k in keys_below(&p) {
			let k = [&p[..], &k[..]].concat();
			if let Some(o) = unhashed::get_raw(&k).and_then(|v| O::decode(&mut &v[..]).ok()) {
				put_opt(&k, f(o));
			}
		}
	}
}
impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E: 'static, M> StorageMap<P, H, K, V, Q, E, M> {
	pub fn iter() -> std::vec::IntoIter<(K, V)> {
		let p = prefix::<P>();
		keys_below(&p)
			.into_iter()
			.filter_map(|k| {
				let v = unhashed::get::<V>(&[&p[..], &k[..]].concat())?;
				Some((K::decode(&mut H::reverse(&k)).ok()?, v))
			})
			.collect::<Vec<_>>()
			.into_iter()
	}
	pub fn iter_keys() -> std::vec::IntoIter<K> {
		Self::iter().map(|x| x.0).collect::<Vec<_>>().into_iter()
	}
	pub fn drain() -> std::vec::IntoIter<(K, V)> {
		let v = Self::iter();
		Self::remove_all(None);
		v
	}
}

/// A map that counts its entries; the counter lives beside it.
pub struct CountedStorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
	PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>,
);
impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E: 'static, M> CountedStorageMap<P, H, K, V, Q, E, M> {
	pub fn hashed_key_for<KArg: EncodeLike<K>>(key: KArg) -> Vec<u8> {
		let mut p = prefix::<P>();
		p.extend_from_slice(H::hash(&key.encode()).as_ref());
		p
	}
	access!(V, Q, E, [key: KArg], hashed_key_for, [KArg: EncodeLike<K>]);
	pub fn iter() -> std::vec::IntoIter<(K, V)> {
		StorageMap::<P, H, K, V, Q, E, M>::iter()
	}
	pub fn count() -> u32 {
		Self::iter().count() as u32
	}
}

// ------------------------------------------------------------------ double map

pub struct StorageDoubleMap<Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
	PhantomData<(Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind, OnEmpty, MaxValues)>,
);
impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec + 'static, H2: StorageHasher, K2: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E: 'static, M>
	StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M>
{
	pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(k1: A, k2: B) -> Vec<u8> {
		let mut p = Self::prefix_for(k1);
		p.extend_from_slice(H2::hash(&k2.encode()).as_ref());
		p
	}
	fn prefix_for<A: EncodeLike<K1>>(k1: A) -> Vec<u8> {
		let mut p = prefix::<P>();
		p.extend_from_slice(H1::hash(&k1.encode()).as_ref());
		p
	}
	access!(V, Q, E, [k1: KArg1, k2: KArg2], hashed_key_for, [KArg1: EncodeLike<K1>, KArg2: EncodeLike<K2>]);
	pub fn iter_prefix_values<A: EncodeLike<K1>>(k1: A) -> std::vec::IntoIter<V> {
		let p = Self::prefix_for(k1);
		keys_below(&p)
			.into_iter()
			.filter_map(|k| unhashed::get::<V>(&[&p[..], &k[..]].concat()))
			.collect::<Vec<_>>()
			.into_iter()
	}
	pub fn clear_prefix<A: EncodeLike<K1>>(k1: A, limit: u32, _: Option<&[u8]>) -> u32 {
		externalities::clear_prefix(&Self::prefix_for(k1), Some(limit))
	}
	pub fn contains_prefix<A: EncodeLike<K1>>(k1: A) -> bool {
		let p = Self::prefix_for(k1);
		externalities::next_key(&p).map_or(false, |k| k.starts_with(&p))
	}
}
impl<P: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec + 'static, H2: ReversibleStorageHasher, K2: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E: 'static, M>
	StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M>
{
	pub fn iter_prefix<A: EncodeLike<K1>>(k1: A) -> std::vec::IntoIter<(K2, V)> {
		let p = Self::prefix_for(k1);
		keys_below(&p)
			.into_iter()
			.filter_map(|k| {
				let v = unhashed::get::<V>(&[&p[..], &k[..]].concat())?;
				Some((K2::decode(&mut H2::reverse(&k)).ok()?, v))
			})
			.collect::<Vec<_>>()
			.into_iter()
	}
	pub fn iter_key_prefix<A: EncodeLike<K1>>(k1: A) -> std::vec::IntoIter<K2> {
		Self::iter_prefix(k1).map(|x| x.0).collect::<Vec<_>>().into_iter()
	}
	pub fn drain_prefix<A: EncodeLike<K1>>(k1: A) -> std::vec::IntoIter<(K2, V)> {
		let p = Self::prefix_for(k1);
		let v = keys_below(&p)
			.into_iter()
			.filter_map(|k| {
				let v = unhashed::get::<V>(&[&p[..], &k[..]].concat())?;
				Some((K2::decode(&mut H2::reverse(&k)).ok()?, v))
			})
			.collect::<Vec<_>>();
		externalities::clear_prefix(&p, None);
		v.into_iter()
	}
	pub fn iter() -> std::vec::IntoIter<(K1, K2, V)> {
		let p = prefix::<P>();
		keys_below(&p)
			.into_iter()
			.filter_map(|k| {
				let v = unhashed::get::<V>(&[&p[..], &k[..]].concat())?;
				let mut rest = H1::reverse(&k);
				let k1 = K1::decode(&mut rest).ok()?;
				let k2 = K2::decode(&mut H2::reverse(rest)).ok()?;
				Some((k1, k2, v))
			})
			.collect::<Vec<_>>()
			.into_iter()
	}
}

// ------------------------------------------------------------------ n map

pub struct Key<Hasher, KeyType>(PhantomData<(Hasher, KeyType)>);
/// The keys of an n-map: hashes each component with its own hasher.
pub trait KeyGenerator {
	type Key;
	fn hash(k: &Self::Key) -> Vec<u8>;
	fn reverse(raw: &[u8]) -> Option<Self::Key>;
}
macro_rules! nkeys { ($( ($($h:ident $k:ident $i:tt),+) )*) => { $(
	impl<$($h: ReversibleStorageHasher, $k: FullCodec),+> KeyGenerator for ($(Key<$h, $k>,)+) {
		type Key = ($($k,)+);
		fn hash(k: &Self::Key) -> Vec<u8> {
			let mut out = vec![];
			$( out.extend_from_slice($h::hash(&k.$i.encode()).as_ref()); )+
			out
		}
		fn reverse(raw: &[u8]) -> Option<Self::Key> {
			let mut rest = raw;
			Some(($( { rest = $h::reverse(rest); $k::decode(&mut rest).ok()? }, )+))
		}
	}
)* } }
nkeys!((H0 K0 0, H1 K1 1) (H0 K0 0, H1 K1 1, H2 K2 2) (H0 K0 0, H1 K1 1, H2 K2 2, H3 K3 3));
pub struct StorageNMap<Prefix, K, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(
	PhantomData<(Prefix, K, Value, QueryKind, OnEmpty, MaxValues)>,
);
impl<P: StorageInstance, KG: KeyGenerator, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E: 'static, M> StorageNMap<P, KG, V, Q, E, M> {
	pub fn hashed_key_for<KArg: std::borrow::Borrow<KG::Key>>(key: KArg) -> Vec<u8> {
		let mut p = prefix::<P>();
		p.extend_from_slice(&KG::hash(key.borrow()));
		p
	}
	access!(V, Q, E, [key: KArg], hashed_key_for, [KArg: std::borrow::Borrow<KG::Key>]);
	pub fn iter() -> std::vec::IntoIter<(KG::Key, V)> {
		let p = prefix::<P>();
		keys_below(&p)
			.into_iter()
			.filter_map(|k| {
				let v = unhashed::get::<V>(&[&p[..], &k[..]].concat())?;
				Some((KG::reverse(&k)?, v))
			})
			.collect::<Vec<_>>()
			.into_iter()
	}
	/// The entries below the given first components (already hashed by `hash_prefix`).
	pub fn iter_raw_prefix(start: Vec<u8>) -> std::vec::IntoIter<(KG::Key, V)> {
		let p = prefix::<P>();
		let below = [&p[..], &start[..]].concat();
		keys_below(&below)
			.into_iter()
			.filter_map(|k| {
				let rest = [&start[..], &k[..]].concat();
				let v = unhashed::get::<V>(&[&p[..], &rest[..]].concat())?;
				Some((KG::reverse(&rest)?, v))
			})
			.collect::<Vec<_>>()
			.into_iter()
	}
}
