//! Stand-in for pallet-proxy: as upstream, without deposits.
use codec::{Decode, Encode};
use frame_support::weights::Weight;
#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, scale_info::TypeInfo)]
pub struct ProxyDefinition<AccountId, ProxyType, BlockNumber> {
	pub delegate: AccountId,
	pub proxy_type: ProxyType,
	pub delay: BlockNumber,
}
pub trait WeightInfo {
	fn proxy(p: u32) -> Weight;
	fn proxy_announced(a: u32, p: u32) -> Weight;
	fn remove_announcement(a: u32, p: u32) -> Weight;
	fn reject_announcement(a: u32, p: u32) -> Weight;
	fn announce(a: u32, p: u32) -> Weight;
	fn add_proxy(p: u32) -> Weight;
	fn remove_proxy(p: u32) -> Weight;
	fn remove_proxies(p: u32) -> Weight;
	fn create_pure(p: u32) -> Weight;
	fn kill_pure(p: u32) -> Weight;
}
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	#[allow(unused_imports)]
	use frame_support::{dispatch::GetDispatchInfo, pallet_prelude::*, traits::{Get, EnsureOrigin, UnfilteredDispatchable}};
	#[allow(unused_imports)]
	use frame_system::{pallet_prelude::*, RawOrigin};
	#[allow(unused_imports)]
	use sp_runtime::{traits::{StaticLookup, Dispatchable, Hash as _, Saturating, Zero}, DispatchError, DispatchResult};
	#[allow(unused_imports)]
	use super::*;
	use frame_support::traits::{InstanceFilter, IsSubType, OriginTrait};

	#[allow(dead_code)]
	type LookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;

	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = frame_support::dispatch::PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + IsType<<Self as frame_system::Config>::RuntimeCall> + frame_support::traits::IsSubType<Call<Self>>;
		type Currency;
		type ProxyType: Parameter + Member + Ord + PartialOrd + Default + MaxEncodedLen + InstanceFilter<<Self as Config>::RuntimeCall>;
		type ProxyDepositBase;
		type ProxyDepositFactor;
		type MaxProxies: Get<u16>;
		type WeightInfo: WeightInfo;
		type MaxPending: Get<u16>;
		type CallHasher;
		type AnnouncementDepositBase;
		type AnnouncementDepositFactor;
	}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::event]
	#[pallet::generate_deposit(pub fn deposit_event)]
	pub enum Event<T: Config> {
		ProxyExecuted { result: DispatchResult },
		ProxyAdded { delegator: T::AccountId, delegatee: T::AccountId, proxy_type: T::ProxyType, delay: BlockNumberFor<T> },
	}
	#[pallet::error]
	pub enum Error<T> {
		TooMany,
		NotFound,
		NotProxy,
		Unproxyable,
		Duplicate,
		NoPermission,
		Unannounced,
		NoSelfProxy,
	}
	#[pallet::storage]
	pub type Proxies<T: Config> = StorageMap<_, Twox64Concat, T::AccountId, Vec<ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>>, ValueQuery>;
	#[pallet::storage]
	pub type Announcements<T: Config> = StorageMap<_, Twox64Concat, T::AccountId, Vec<(T::AccountId, sp_core::H256, BlockNumberFor<T>)>, ValueQuery>;

	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn proxy(origin: OriginFor<T>, real: LookupOf<T>, force_proxy_type: Option<T::ProxyType>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let real = T::Lookup::lookup(real)?;
			let def = Self::find_proxy(&real, &who, force_proxy_type)?;
			ensure!(def.delay.is_zero(), Error::<T>::Unannounced);
			Self::do_proxy(def, real, *call);
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn add_proxy(origin: OriginFor<T>, delegate: LookupOf<T>, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let delegate = T::Lookup::lookup(delegate)?;
			ensure!(delegate != who, Error::<T>::NoSelfProxy);
			Proxies::<T>::try_mutate(&who, |proxies| {
				let def = ProxyDefinition { delegate: delegate.clone(), proxy_type: proxy_type.clone(), delay };
				ensure!(!proxies.contains(&def), Error::<T>::Duplicate);
				ensure!(proxies.len() < T::MaxProxies::get() as usize, Error::<T>::TooMany);
				proxies.push(def);
				Self::deposit_event(Event::ProxyAdded { delegator: who.clone(), delegatee: delegate, proxy_type, delay });
				Ok(())
			})
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn remove_proxy(origin: OriginFor<T>, delegate: LookupOf<T>, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let delegate = T::Lookup::lookup(delegate)?;
			Proxies::<T>::try_mutate(&who, |proxies| {
				let def = ProxyDefinition { delegate, proxy_type, delay };
				let at = proxies.iter().position(|p| *p == def).ok_or(Error::<T>::NotFound)?;
				proxies.remove(at);
				Ok(())
			})
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn remove_proxies(origin: OriginFor<T>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			Proxies::<T>::remove(&who);
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn create_pure(origin: OriginFor<T>, proxy_type: T::ProxyType, delay: BlockNumberFor<T>, index: u16) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let pure = Self::pure_account(&who, &proxy_type, index);
			ensure!(!Proxies::<T>::contains_key(&pure), Error::<T>::Duplicate);
			Proxies::<T>::insert(&pure, vec![ProxyDefinition { delegate: who, proxy_type, delay }]);
			Ok(())
		}
		#[pallet::call_index(5)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn kill_pure(origin: OriginFor<T>, spawner: LookupOf<T>, proxy_type: T::ProxyType, index: u16, #[pallet::compact] height: BlockNumberFor<T>, #[pallet::compact] ext_index: u32) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let spawner = T::Lookup::lookup(spawner)?;
			let _ = (height, ext_index);
			ensure!(Self::pure_account(&spawner, &proxy_type, index) == who, Error::<T>::NoPermission);
			Proxies::<T>::remove(&who);
			Ok(())
		}
		#[pallet::call_index(6)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn announce(origin: OriginFor<T>, real: LookupOf<T>, call_hash: sp_core::H256) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let real = T::Lookup::lookup(real)?;
			ensure!(Proxies::<T>::get(&real).iter().any(|p| p.delegate == who), Error::<T>::NotProxy);
			Announcements::<T>::mutate(&who, |a| a.push((real, call_hash, frame_system::Pallet::<T>::block_number())));
			Ok(())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn remove_announcement(origin: OriginFor<T>, real: LookupOf<T>, call_hash: sp_core::H256) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let real = T::Lookup::lookup(real)?;
			Self::drop_announcement(&who, |r, h| *r == real && *h == call_hash)
		}
		#[pallet::call_index(8)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn reject_announcement(origin: OriginFor<T>, delegate: LookupOf<T>, call_hash: sp_core::H256) -> DispatchResult {
			let who = ensure_signed(origin)?;
			let delegate = T::Lookup::lookup(delegate)?;
			Self::drop_announcement(&delegate, |r, h| *r == who && *h == call_hash)
		}
		#[pallet::call_index(9)]
		#[pallet::weight(Weight::from_parts(10_000, 0))]
		pub fn proxy_announced(origin: OriginFor<T>, delegate: LookupOf<T>, real: LookupOf<T>, force_proxy_type: Option<T::ProxyType>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			ensure_signed(origin)?;
			let delegate = T::Lookup::lookup(delegate)?;
			let real = T::Lookup::lookup(real)?;
			let def = Self::find_proxy(&real, &delegate, force_proxy_type)?;
			let call_hash = sp_core::H256(sp_io::hashing::blake2_256(&call.encode()));
			let now = frame_system::Pallet::<T>::block_number();
			let ripe = Announcements::<T>::get(&delegate)
				.iter()
				.any(|(r, h, at)| *r == real && *h == call_hash && now.saturating_sub(*at) >= def.delay);
			ensure!(ripe, Error::<T>::Unannounced);
			Self::drop_announcement(&delegate, |r, h| *r == real && *h == call_hash)?;
			Self::do_proxy(def, real, *call);
			Ok(())
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn pure_account(who: &T::AccountId, proxy_type: &T::ProxyType, index: u16) -> T::AccountId {
			let entropy = (b"modlpy/proxy____", who, proxy_type, index).using_encoded(sp_io::hashing::blake2_256);
			Decode::decode(&mut sp_runtime::traits::TrailingZeroInput::new(entropy.as_ref())).expect("infinite length input")
		}
		fn drop_announcement(delegate: &T::AccountId, f: impl Fn(&T::AccountId, &sp_core::H256) -> bool) -> DispatchResult {
			Announcements::<T>::try_mutate(delegate, |a| {
				let before = a.len();
				a.retain(|(r, h, _)| !f(r, h));
				ensure!(a.len() < before, Error::<T>::NotFound);
				Ok(())
			})
		}
		pub fn find_proxy(
			real: &T::AccountId,
			delegate: &T::AccountId,
			force: Option<T::ProxyType>,
		) -> Result<ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>, DispatchError> {
			Proxies::<T>::get(real)
				.into_iter()
				.find(|x| &x.delegate == delegate && force.as_ref().map_or(true, |y| &x.proxy_type == y))
				.ok_or(Error::<T>::NotProxy.into())
		}
		fn do_proxy(
			def: ProxyDefinition<T::AccountId, T::ProxyType, BlockNumberFor<T>>,
			real: T::AccountId,
			call: <T as Config>::RuntimeCall,
		) {
			// This is a freshly authenticated new account, the origin restrictions don't apply.
			let mut origin: T::RuntimeOrigin = RawOrigin::Signed(real).into();
			origin.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
				let c = <T as Config>::RuntimeCall::from_ref(c);
				// We make sure the proxy call does access this pallet to change modify proxies.
				match c.is_sub_type() {
					// Proxy call cannot add or remove a proxy with more permissions than it already has.
					Some(Call::add_proxy { ref proxy_type, .. }) | Some(Call::remove_proxy { ref proxy_type, .. })
						if !def.proxy_type.is_superset(proxy_type) =>
						false,
					// Proxy call cannot remove all proxies or kill pure proxies unless it has full permissions.
					Some(Call::remove_proxies { .. }) | Some(Call::kill_pure { .. }) if def.proxy_type != T::ProxyType::default() => false,
					_ => def.proxy_type.filter(c),
				}
			});
			let e = call.dispatch(origin);
			Self::deposit_event(Event::ProxyExecuted { result: e.map(|_| ()).map_err(|e| e.error) });
		}
	}
}
