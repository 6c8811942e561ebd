//! Programs: assets in bulk, filters, instructions and the traits around them.
use super::*;
pub use sp_weights::Weight;
use std::marker::PhantomData;

/// A sorted list of assets without duplicates.
#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo, Default, Ord, PartialOrd)]
pub struct Assets(Vec<Asset>);
impl Assets {
	pub fn new() -> Self {
		Self(vec![])
	}
	pub fn inner(&self) -> &Vec<Asset> {
		&self.0
	}
	pub fn into_inner(self) -> Vec<Asset> {
		self.0
	}
	pub fn is_none(&self) -> bool {
		self.0.is_empty()
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
	pub fn get(&self, i: usize) -> Option<&Asset> {
		self.0.get(i)
	}
	pub fn contains(&self, a: &Asset) -> bool {
		self.0.iter().any(|x| x == a)
	}
	pub fn push(&mut self, a: Asset) {
		for x in self.0.iter_mut() {
			match (&a.fun, &mut x.fun) {
				(Fungibility::Fungible(n), Fungibility::Fungible(m)) if x.id == a.id => {
					*m = m.saturating_add(*n);
					return;
				}
				(Fungibility::NonFungible(n), Fungibility::NonFungible(m)) if x.id == a.id && n == m => return,
				_ => {}
			}
		}
		self.0.push(a);
		self.0.sort();
	}
}
impl From<Vec<Asset>> for Assets {
	fn from(v: Vec<Asset>) -> Self {
		let mut s = Self::new();
		v.into_iter().for_each(|a| s.push(a));
		s
	}
}
impl<T: Into<Asset>> From<T> for Assets {
	fn from(a: T) -> Self {
		Self(vec![a.into()])
	}
}
#[derive(Copy, Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo, Ord, PartialOrd)]
pub enum WildFungibility {
	Fungible,
	NonFungible,
}
#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
pub enum WildAsset {
	All,
	AllOf { id: AssetId, fun: WildFungibility },
	AllCounted(#[codec(compact)] u32),
	AllOfCounted {
		id: AssetId,
		fun: WildFungibility,
		#[codec(compact)]
		count: u32,
	},
}
#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
pub enum AssetFilter {
	Definite(Assets),
	Wild(WildAsset),
}
impl From<WildAsset> for AssetFilter {
	fn from(w: WildAsset) -> Self {
		Self::Wild(w)
	}
}
impl From<Assets> for AssetFilter {
	fn from(w: Assets) -> Self {
		Self::Definite(w)
	}
}
#[derive(Copy, Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum OriginKind {
	Native,
	SovereignAccount,
	Superuser,
	Xcm,
}
#[derive(Copy, Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
pub enum Error {
	Overflow,
	Unimplemented,
	UntrustedReserveLocation,
	UntrustedTeleportLocation,
	LocationFull,
	LocationNotInvertible,
	BadOrigin,
	InvalidLocation,
	AssetNotFound,
	FailedToTransactAsset(#[codec(skip)] &'static str),
	NotWithdrawable,
	LocationCannotHold,
	ExceedsMaxMessageSize,
	DestinationUnsupported,
	Transport(#[codec(skip)] &'static str),
	Unroutable,
	UnknownClaim,
	FailedToDecode,
	MaxWeightInvalid,
	NotHoldingFees,
	TooExpensive,
	Trap(u64),
	ExpectationFalse,
	PalletNotFound,
	NameMismatch,
	VersionIncompatible,
	HoldingWouldOverflow,
	ExportError,
	ReanchorFailed,
	NoDeal,
	FeesNotMet,
	LockError,
	NoPermission,
	Unanchored,
	NotDepositable,
	UnhandledXcmVersion,
	WeightLimitReached(Weight),
	Barrier,
	WeightNotComputable,
	ExceedsStackLimit,
}
impl From<SendError> for Error {
	fn from(e: SendError) -> Self {
		match e {
			SendError::NotApplicable | SendError::Unroutable | SendError::MissingArgument => Error::Unroutable,
			SendError::Transport(s) => Error::Transport(s),
			SendError::DestinationUnsupported => Error::DestinationUnsupported,
			SendError::ExceedsMaxMessageSize => Error::ExceedsMaxMessageSize,
			SendError::Fees => Error::FeesNotMet,
		}
	}
}
pub type Result = std::result::Result<(), Error>;
#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
pub enum Outcome {
	Complete { used: Weight },
	Incomplete { used: Weight, error: Error },
	Error { error: Error },
}
impl Outcome {
	pub fn ensure_complete(self) -> Result {
		match self {
			Outcome::Complete { .. } => Ok(()),
			Outcome::Incomplete { error, .. } | Outcome::Error { error } => Err(error),
		}
	}
}
#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
pub enum SendError {
	NotApplicable,
	Transport(#[codec(skip)] &'static str),
	Unroutable,
	DestinationUnsupported,
	ExceedsMaxMessageSize,
	MissingArgument,
	Fees,
}
pub type SendResult<T> = std::result::Result<(T, Assets), SendError>;
pub type QueryId = u64;
#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
pub enum WeightLimit {
	Unlimited,
	Limited(Weight),
}
#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo, Default)]
pub enum MaybeErrorCode {
	#[default]
	Success,
	Error(Vec<u8>),
	TruncatedError(Vec<u8>),
}
#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
pub struct PalletInfo {
	#[codec(compact)]
	pub index: u32,
	pub name: Vec<u8>,
	pub module_name: Vec<u8>,
	#[codec(compact)]
	pub major: u32,
	#[codec(compact)]
	pub minor: u32,
	#[codec(compact)]
	pub patch: u32,
}
#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
pub enum Response {
	Null,
	Assets(Assets),
	ExecutionResult(Option<(u32, Error)>),
	Version(u32),
	PalletsInfo(Vec<PalletInfo>),
	DispatchResult(MaybeErrorCode),
}
#[derive(Clone, Eq, PartialEq, Encode, Decode, Debug, TypeInfo)]
pub struct QueryResponseInfo {
	pub destination: Location,
	#[codec(compact)]
	pub query_id: QueryId,
	pub max_weight: Weight,
}

/// A call in encoded form.
#[derive(Encode, Decode)]
#[codec(encode_bound())]
#[codec(decode_bound())]
pub struct DoubleEncoded<T> {
	encoded: Vec<u8>,
	#[codec(skip)]
	decoded: PhantomData<T>,
}
impl<T> Clone for DoubleEncoded<T> {
	fn clone(&self) -> Self {
		Self { encoded: self.encoded.clone(), decoded: PhantomData }
	}
}
impl<T> PartialEq for DoubleEncoded<T> {
	fn eq(&self, o: &Self) -> bool {
		self.encoded == o.encoded
	}
}
impl<T> Eq for DoubleEncoded<T> {}
impl<T> std::fmt::Debug for DoubleEncoded<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{:?}", self.encoded)
	}
}
impl<T> From<Vec<u8>> for DoubleEncoded<T> {
	fn from(encoded: Vec<u8>) -> Self {
		Self { encoded, decoded: PhantomData }
	}
}
impl<T> DoubleEncoded<T> {
	pub fn into_encoded(self) -> Vec<u8> {
		self.encoded
	}
	pub fn into<S>(self) -> DoubleEncoded<S> {
		DoubleEncoded { encoded: self.encoded, decoded: PhantomData }
	}
}
impl<T: Decode> DoubleEncoded<T> {
	pub fn take_decoded(&self) -> std::result::Result<T, ()> {
		T::decode(&mut &self.encoded[..]).map_err(|_| ())
	}
}

macro_rules! instructions {
	( $( $v:ident $( ( $( #[$m:meta] )* $t:ty ) )? $( { $( $( #[$a:meta] )* $f:ident : $ft:ty, )* } )? , )* ) => {
		#[derive(Encode, Decode)]
		#[codec(encode_bound())]
		#[codec(decode_bound())]
		pub enum Instruction<Call> { $( $v $( ( $( #[$m] )* $t ) )? $( { $( $( #[$a] )* $f: $ft, )* } )? , )* }
	};
}
instructions! {
	WithdrawAsset(Assets),
	ReserveAssetDeposited(Assets),
	ReceiveTeleportedAsset(Assets),
	QueryResponse { #[codec(compact)] query_id: QueryId, response: Response, max_weight: Weight, querier: Option<Location>, },
	TransferAsset { assets: Assets, beneficiary: Location, },
	TransferReserveAsset { assets: Assets, dest: Location, xcm: Xcm<()>, },
	Transact { origin_kind: OriginKind, require_weight_at_most: Weight, call: DoubleEncoded<Call>, },
	HrmpNewChannelOpenRequest { #[codec(compact)] sender: u32, #[codec(compact)] max_message_size: u32, #[codec(compact)] max_capacity: u32, },
	HrmpChannelAccepted { #[codec(compact)] recipient: u32, },
	HrmpChannelClosing { #[codec(compact)] initiator: u32, #[codec(compact)] sender: u32, #[codec(compact)] recipient: u32, },
	ClearOrigin,
	DescendOrigin(InteriorLocation),
	ReportError(QueryResponseInfo),
	DepositAsset { assets: AssetFilter, beneficiary: Location, },
	DepositReserveAsset { assets: AssetFilter, dest: Location, xcm: Xcm<()>, },
	ExchangeAsset { give: AssetFilter, want: Assets, maximal: bool, },
	InitiateReserveWithdraw { assets: AssetFilter, reserve: Location, xcm: Xcm<()>, },
	InitiateTeleport { assets: AssetFilter, dest: Location, xcm: Xcm<()>, },
	ReportHolding { response_info: QueryResponseInfo, assets: AssetFilter, },
	BuyExecution { fees: Asset, weight_limit: WeightLimit, },
	RefundSurplus,
	SetErrorHandler(Xcm<Call>),
	SetAppendix(Xcm<Call>),
	ClearError,
	ClaimAsset { assets: Assets, ticket: Location, },
	Trap(#[codec(compact)] u64),
	SubscribeVersion { #[codec(compact)] query_id: QueryId, max_response_weight: Weight, },
	UnsubscribeVersion,
	BurnAsset(Assets),
	ExpectAsset(Assets),
	ExpectOrigin(Option<Location>),
	ExpectError(Option<(u32, Error)>),
	ExpectTransactStatus(MaybeErrorCode),
	QueryPallet { module_name: Vec<u8>, response_info: QueryResponseInfo, },
	ExpectPallet { #[codec(compact)] index: u32, name: Vec<u8>, module_name: Vec<u8>, #[codec(compact)] crate_major: u32, #[codec(compact)] min_crate_minor: u32, },
	ReportTransactStatus(QueryResponseInfo),
	ClearTransactStatus,
	UniversalOrigin(Junction),
	ExportMessage { network: NetworkId, destination: InteriorLocation, xcm: Xcm<()>, },
	LockAsset { asset: Asset, unlocker: Location, },
	UnlockAsset { asset: Asset, target: Location, },
	NoteUnlockable { asset: Asset, owner: Location, },
	RequestUnlock { asset: Asset, locker: Location, },
	SetFeesMode { jit_withdraw: bool, },
	SetTopic([u8; 32]),
	ClearTopic,
	AliasOrigin(Location),
	UnpaidExecution { weight_limit: WeightLimit, check_origin: Option<Location>, },
}
impl<C> Clone for Instruction<C> {
	fn clone(&self) -> Self {
		Self::decode(&mut &self.encode()[..]).expect("decodes what it encoded")
	}
}
impl<C> PartialEq for Instruction<C> {
	fn eq(&self, o: &Self) -> bool {
		self.encode() == o.encode()
	}
}
impl<C> Eq for Instruction<C> {}
impl<C> std::fmt::Debug for Instruction<C> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "Instruction({:?})", self.encode())
	}
}
#[derive(Encode, Decode)]
#[codec(encode_bound())]
#[codec(decode_bound())]
pub struct Xcm<Call>(pub Vec<Instruction<Call>>);
impl<C> Clone for Xcm<C> {
	fn clone(&self) -> Self {
		Self(self.0.clone())
	}
}
impl<C> PartialEq for Xcm<C> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<C> Eq for Xcm<C> {}
impl<C> std::fmt::Debug for Xcm<C> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "Xcm({:?})", self.0)
	}
}
impl<C> Default for Xcm<C> {
	fn default() -> Self {
		Self(vec![])
	}
}
impl<C> Xcm<C> {
	pub fn new() -> Self {
		Self(vec![])
	}
	pub fn is_empty(&self) -> bool {
		self.0.is_empty()
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
	pub fn inner(&self) -> &[Instruction<C>] {
		&self.0
	}
	pub fn inner_mut(&mut self) -> &mut Vec<Instruction<C>> {
		&mut self.0
	}
	pub fn into<D>(self) -> Xcm<D> {
		Xcm::decode(&mut &self.encode()[..]).expect("the encoding does not depend on the call type")
	}
	pub fn from<D>(x: Xcm<D>) -> Self {
		x.into()
	}
}
impl<C> TypeInfo for Xcm<C> {
	type Identity = Xcm<()>;
	fn type_info() -> scale_info::Type {
		<() as TypeInfo>::type_info()
	}
}
macro_rules! versioned {
	($( $n:ident $(<$c:ident>)? : $t:ty ),*) => { $(
		#[derive(Encode, Decode)]
		#[codec(encode_bound())]
		#[codec(decode_bound())]
		pub enum $n $(<$c>)? { #[codec(index = 4)] V4($t) }
		impl $(<$c>)? Clone for $n $(<$c>)? { fn clone(&self) -> Self { match self { Self::V4(x) => Self::V4(x.clone()) } } }
		impl $(<$c>)? PartialEq for $n $(<$c>)? { fn eq(&self, o: &Self) -> bool { match (self, o) { (Self::V4(x), Self::V4(y)) => x == y } } }
		impl $(<$c>)? Eq for $n $(<$c>)? {}
		impl $(<$c>)? std::fmt::Debug for $n $(<$c>)? { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Self::V4(x) => write!(f, "V4({x:?})") } } }
		impl $(<$c>)? From<$t> for $n $(<$c>)? { fn from(x: $t) -> Self { Self::V4(x) } }
		impl $(<$c>)? $n $(<$c>)? { pub fn into_latest(self) -> $t { match self { Self::V4(x) => x } } }
		impl $(<$c>)? TypeInfo for $n $(<$c>)? {
			type Identity = ();
			fn type_info() -> scale_info::Type { <() as TypeInfo>::type_info() }
		}
	)* };
}
versioned!(VersionedLocation: Location, VersionedAssets: Assets, VersionedAssetId: AssetId, VersionedXcm<Call>: Xcm<Call>);

#[derive(Clone, Eq, PartialEq, Debug)]
pub struct XcmContext {
	pub origin: Option<Location>,
	pub message_id: XcmHash,
	pub topic: Option<[u8; 32]>,
}
impl XcmContext {
	pub fn with_message_id(message_id: XcmHash) -> Self {
		Self { origin: None, message_id, topic: None }
	}
}
pub trait PreparedMessage {
	fn weight_of(&self) -> Weight;
}
pub trait ExecuteXcm<Call> {
	type Prepared: PreparedMessage;
	fn prepare(message: Xcm<Call>) -> std::result::Result<Self::Prepared, Xcm<Call>>;
	fn execute(origin: impl Into<Location>, pre: Self::Prepared, id: &mut XcmHash, weight_credit: Weight) -> Outcome;
	fn prepare_and_execute(
		origin: impl Into<Location>,
		message: Xcm<Call>,
		id: &mut XcmHash,
		weight_limit: Weight,
		weight_credit: Weight,
	) -> Outcome {
		let pre = match Self::prepare(message) {
			Ok(x) => x,
			Err(_) => return Outcome::Error { error: Error::WeightNotComputable },
		};
		let needed = pre.weight_of();
		if needed.any_gt(weight_limit) {
			return Outcome::Error { error: Error::WeightLimitReached(needed) };
		}
		Self::execute(origin, pre, id, weight_credit)
	}
}
pub trait SendXcm {
	type Ticket;
	fn validate(destination: &mut Option<Location>, message: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket>;
	fn deliver(ticket: Self::Ticket) -> std::result::Result<XcmHash, SendError>;
}
impl<A: SendXcm, B: SendXcm> SendXcm for (A, B) {
	type Ticket = (Option<A::Ticket>, Option<B::Ticket>);
	fn validate(d: &mut Option<Location>, m: &mut Option<Xcm<()>>) -> SendResult<Self::Ticket> {
		match A::validate(d, m) {
			Err(SendError::NotApplicable) => B::validate(d, m).map(|(t, c)| ((None, Some(t)), c)),
			Err(e) => Err(e),
			Ok((t, c)) => Ok(((Some(t), None), c)),
		}
	}
	fn deliver(t: Self::Ticket) -> std::result::Result<XcmHash, SendError> {
		match t {
			(Some(t), _) => A::deliver(t),
			(_, Some(t)) => B::deliver(t),
			_ => Err(SendError::Unroutable),
		}
	}
}
pub fn validate_send<T: SendXcm>(dest: Location, msg: Xcm<()>) -> SendResult<T::Ticket> {
	T::validate(&mut Some(dest), &mut Some(msg))
}
pub fn send_xcm<T: SendXcm>(dest: Location, msg: Xcm<()>) -> std::result::Result<(XcmHash, Assets), SendError> {
	let (ticket, price) = T::validate(&mut Some(dest), &mut Some(msg))?;
	Ok((T::deliver(ticket)?, price))
}

pub trait XcmWeightInfo<Call> {
	fn withdraw_asset(assets: &Assets) -> Weight;
	fn reserve_asset_deposited(assets: &Assets) -> Weight;
	fn receive_teleported_asset(assets: &Assets) -> Weight;
	fn query_response(query_id: &u64, response: &Response, max_weight: &Weight, querier: &Option<Location>) -> Weight;
	fn transfer_asset(assets: &Assets, beneficiary: &Location) -> Weight;
	fn transfer_reserve_asset(assets: &Assets, dest: &Location, xcm: &Xcm<()>) -> Weight;
	fn transact(origin_kind: &OriginKind, require_weight_at_most: &Weight, call: &DoubleEncoded<Call>) -> Weight;
	fn hrmp_new_channel_open_request(sender: &u32, max_message_size: &u32, max_capacity: &u32) -> Weight;
	fn hrmp_channel_accepted(recipient: &u32) -> Weight;
	fn hrmp_channel_closing(initiator: &u32, sender: &u32, recipient: &u32) -> Weight;
	fn clear_origin() -> Weight;
	fn descend_origin(who: &InteriorLocation) -> Weight;
	fn report_error(query_response_info: &QueryResponseInfo) -> Weight;
	fn deposit_asset(assets: &AssetFilter, beneficiary: &Location) -> Weight;
	fn deposit_reserve_asset(assets: &AssetFilter, dest: &Location, xcm: &Xcm<()>) -> Weight;
	fn exchange_asset(give: &AssetFilter, want: &Assets, maximal: &bool) -> Weight;
	fn initiate_reserve_withdraw(assets: &AssetFilter, reserve: &Location, xcm: &Xcm<()>) -> Weight;
	fn initiate_teleport(assets: &AssetFilter, dest: &Location, xcm: &Xcm<()>) -> Weight;
	fn report_holding(response_info: &QueryResponseInfo, assets: &AssetFilter) -> Weight;
	fn buy_execution(fees: &Asset, weight_limit: &WeightLimit) -> Weight;
	fn refund_surplus() -> Weight;
	fn set_error_handler(xcm: &Xcm<Call>) -> Weight;
	fn set_appendix(xcm: &Xcm<Call>) -> Weight;
	fn clear_error() -> Weight;
	fn claim_asset(assets: &Assets, ticket: &Location) -> Weight;
	fn trap(code: &u64) -> Weight;
	fn subscribe_version(query_id: &QueryId, max_response_weight: &Weight) -> Weight;
	fn unsubscribe_version() -> Weight;
	fn burn_asset(assets: &Assets) -> Weight;
	fn expect_asset(assets: &Assets) -> Weight;
	fn expect_origin(origin: &Option<Location>) -> Weight;
	fn expect_error(error: &Option<(u32, Error)>) -> Weight;
	fn expect_transact_status(status: &MaybeErrorCode) -> Weight;
	fn query_pallet(module_name: &Vec<u8>, response_info: &QueryResponseInfo) -> Weight;
	fn expect_pallet(index: &u32, name: &Vec<u8>, module_name: &Vec<u8>, crate_major: &u32, min_crate_minor: &u32) -> Weight;
	fn report_transact_status(response_info: &QueryResponseInfo) -> Weight;
	fn clear_transact_status() -> Weight;
	fn universal_origin(origin: &Junction) -> Weight;
	fn export_message(network: &NetworkId, destination: &InteriorLocation, xcm: &Xcm<()>) -> Weight;
	fn lock_asset(asset: &Asset, unlocker: &Location) -> Weight;
	fn unlock_asset(asset: &Asset, target: &Location) -> Weight;
	fn note_unlockable(asset: &Asset, owner: &Location) -> Weight;
	fn request_unlock(asset: &Asset, locker: &Location) -> Weight;
	fn set_fees_mode(jit_withdraw: &bool) -> Weight;
	fn set_topic(topic: &[u8; 32]) -> Weight;
	fn clear_topic() -> Weight;
	fn alias_origin(location: &Location) -> Weight;
	fn unpaid_execution(weight_limit: &WeightLimit, check_origin: &Option<Location>) -> Weight;
}
pub trait GetWeight<W> {
	fn weight(&self) -> Weight;
}
impl<C, W: XcmWeightInfo<C>> GetWeight<W> for Instruction<C> {
	fn weight(&self) -> Weight {
		use Instruction::*;
		match self {
			WithdrawAsset(a) => W::withdraw_asset(a),
			ReserveAssetDeposited(a) => W::reserve_asset_deposited(a),
			ReceiveTeleportedAsset(a) => W::receive_teleported_asset(a),
			QueryResponse { query_id, response, max_weight, querier } => W::query_response(query_id, response, max_weight, querier),
			TransferAsset { assets, beneficiary } => W::transfer_asset(assets, beneficiary),
			TransferReserveAsset { assets, dest, xcm } => W::transfer_reserve_asset(assets, dest, xcm),
			Transact { origin_kind, require_weight_at_most, call } => W::transact(origin_kind, require_weight_at_most, call),
			HrmpNewChannelOpenRequest { sender, max_message_size, max_capacity } => W::hrmp_new_channel_open_request(sender, max_message_size, max_capacity),
			HrmpChannelAccepted { recipient } => W::hrmp_channel_accepted(recipient),
			HrmpChannelClosing { initiator, sender, recipient } => W::hrmp_channel_closing(initiator, sender, recipient),
			ClearOrigin => W::clear_origin(),
			DescendOrigin(who) => W::descend_origin(who),
			ReportError(i) => W::report_error(i),
			DepositAsset { assets, beneficiary } => W::deposit_asset(assets, beneficiary),
			DepositReserveAsset { assets, dest, xcm } => W::deposit_reserve_asset(assets, dest, xcm),
			ExchangeAsset { give, want, maximal } => W::exchange_asset(give, want, maximal),
			InitiateReserveWithdraw { assets, reserve, xcm } => W::initiate_reserve_withdraw(assets, reserve, xcm),
			InitiateTeleport { assets, dest, xcm } => W::initiate_teleport(assets, dest, xcm),
			ReportHolding { response_info, assets } => W::report_holding(response_info, assets),
			BuyExecution { fees, weight_limit } => W::buy_execution(fees, weight_limit),
			RefundSurplus => W::refund_surplus(),
			SetErrorHandler(x) => W::set_error_handler(x),
			SetAppendix(x) => W::set_appendix(x),
			ClearError => W::clear_error(),
			ClaimAsset { assets, ticket } => W::claim_asset(assets, ticket),
			Trap(code) => W::trap(code),
			SubscribeVersion { query_id, max_response_weight } => W::subscribe_version(query_id, max_response_weight),
			UnsubscribeVersion => W::unsubscribe_version(),
			BurnAsset(a) => W::burn_asset(a),
			ExpectAsset(a) => W::expect_asset(a),
			ExpectOrigin(o) => W::expect_origin(o),
			ExpectError(e) => W::expect_error(e),
			ExpectTransactStatus(s) => W::expect_transact_status(s),
			QueryPallet { module_name, response_info } => W::query_pallet(module_name, response_info),
			ExpectPallet { index, name, module_name, crate_major, min_crate_minor } => W::expect_pallet(index, name, module_name, crate_major, min_crate_minor),
			ReportTransactStatus(i) => W::report_transact_status(i),
			ClearTransactStatus => W::clear_transact_status(),
			UniversalOrigin(j) => W::universal_origin(j),
			ExportMessage { network, destination, xcm } => W::export_message(network, destination, xcm),
			LockAsset { asset, unlocker } => W::lock_asset(asset, unlocker),
			UnlockAsset { asset, target } => W::unlock_asset(asset, target),
			NoteUnlockable { asset, owner } => W::note_unlockable(asset, owner),
			RequestUnlock { asset, locker } => W::request_unlock(asset, locker),
			SetFeesMode { jit_withdraw } => W::set_fees_mode(jit_withdraw),
			SetTopic(t) => W::set_topic(t),
			ClearTopic => W::clear_topic(),
			AliasOrigin(l) => W::alias_origin(l),
			UnpaidExecution { weight_limit, check_origin } => W::unpaid_execution(weight_limit, check_origin),
		}
	}
}

// ---- reanchoring ----
impl Location {
	/// This location, as seen from `target`, where `context` is this chain's place in the universe.
	pub fn reanchored(self, target: &Location, context: &Junctions) -> std::result::Result<Location, ()> {
		let absolute = |l: &Location| -> Option<Vec<Junction>> {
			let c = context.as_slice();
			let keep = c.len().checked_sub(l.parents as usize)?;
			Some(c[..keep].iter().chain(l.interior.iter()).copied().collect())
		};
		let (me, it) = (absolute(&self).ok_or(())?, absolute(target).ok_or(())?);
		let common = me.iter().zip(it.iter()).take_while(|(a, b)| a == b).count();
		let parents = (it.len() - common) as u8;
		Ok(Location { parents, interior: Junctions::from_slice(&me[common..]).ok_or(())? })
	}
	/// Prefix this location with another one.
	pub fn prepend_with(&mut self, prefix: Location) -> std::result::Result<(), Location> {
		let keep = (prefix.interior.len()).checked_sub(self.parents as usize);
		let (parents, head) = match keep {
			Some(k) => (prefix.parents, prefix.interior.as_slice()[..k].to_vec()),
			None => (prefix.parents + (self.parents - prefix.interior.len() as u8), vec![]),
		};
		let all: Vec<Junction> = head.into_iter().chain(self.interior.iter().copied()).collect();
		let interior = Junctions::from_slice(&all).ok_or(prefix)?;
		*self = Location { parents, interior };
		Ok(())
	}
	pub fn append_with(&mut self, suffix: impl Into<Junctions>) -> std::result::Result<(), Junctions> {
		let s = suffix.into();
		let all: Vec<Junction> = self.interior.iter().chain(s.iter()).copied().collect();
		self.interior = Junctions::from_slice(&all).ok_or(s)?;
		Ok(())
	}
}
impl Asset {
	pub fn reanchored(self, target: &Location, context: &Junctions) -> std::result::Result<Asset, ()> {
		Ok(Asset { id: AssetId(self.id.0.reanchored(target, context)?), fun: self.fun })
	}
	pub fn is_fungible(&self) -> bool {
		matches!(self.fun, Fungibility::Fungible(_))
	}
}
