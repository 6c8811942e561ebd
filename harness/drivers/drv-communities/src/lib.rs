//! Exercises the communities pallets in a small runtime. Input lines either start a new world
//! (`cfg`) or make one call from the world reached at depth `d` of the current path.
//!
//! Accounts and origins are numbers: 1.. users, 98 the account of root, 100+c the account of
//! community c, 200+c the origin of community c, 99 root, 0 no one. Amounts are pairs in base 2^30.
use codec::{Decode, Encode};
use drvlib::{caught, json, quiet_panics, Value};
use fc_traits_memberships::{Inspect as _};
use frame_support::{
	derive_impl, parameter_types,
	traits::{
		fungible, fungibles,
		tokens::nonfungibles_v2::{Create as _, Inspect as _, Mutate as _},
		AsEnsureOriginWithArg, ConstU16, ConstU32, EitherOf, Get, OriginTrait, PollStatus, Polling, TypedGet, VariantCountOf, VoteTally,
	},
	weights::Weight,
	PalletId,
};
use frame_system::{EnsureNever, EnsureRoot, EnsureRootWithSuccess, EnsureSigned};
use pallet_communities::{
	origin::{EnsureCommunity, EnsureSignedPays},
	types::{CommunityInfo, CommunityState, DecisionMethod, Tally, Vote},
};
use sp_runtime::{
	traits::{Dispatchable, IdentifyAccount, IdentityLookup, Verify},
	DispatchError, MultiSignature, Perbill,
};
use std::cell::RefCell;
use std::io::{BufRead, Write};

type Block = frame_system::mocking::MockBlock<Test>;
type AccountPublic = <MultiSignature as Verify>::Signer;
type AccountId = <AccountPublic as IdentifyAccount>::AccountId;
type Balance = u128;
type CommunityId = u16;
type MembershipId = u32;

#[frame_support::runtime]
mod runtime {
	#[runtime::runtime]
	#[runtime::derive(RuntimeCall, RuntimeEvent, RuntimeError, RuntimeOrigin, RuntimeTask, RuntimeHoldReason, RuntimeFreezeReason)]
	pub struct Test;
	#[runtime::pallet_index(0)]
	pub type System = frame_system;
	#[runtime::pallet_index(1)]
	pub type Scheduler = pallet_scheduler;
	#[runtime::pallet_index(10)]
	pub type Balances = pallet_balances;
	#[runtime::pallet_index(11)]
	pub type Assets = pallet_assets;
	#[runtime::pallet_index(12)]
	pub type AssetsFreezer = pallet_assets_freezer;
	#[runtime::pallet_index(21)]
	pub type Referenda = pallet_referenda;
	#[runtime::pallet_index(22)]
	pub type Collective = pallet_ranked_collective<Instance1>;
	#[runtime::pallet_index(31)]
	pub type Communities = pallet_communities;
	#[runtime::pallet_index(32)]
	pub type Tracks = pallet_referenda_tracks;
	#[runtime::pallet_index(33)]
	pub type Nfts = pallet_nfts;
	#[runtime::pallet_index(34)]
	pub type CommunitiesManager = pallet_communities_manager;
}
parameter_types! {
	pub MaxWeight: Weight = Weight::from_parts(2_000_000_000_000, u64::MAX);
	pub const RootAccount: AccountId = AccountId::new([0xff; 32]);
	pub const CommunitiesPalletId: PalletId = PalletId(*b"kv/comms");
	pub const ManagerCollection: CommunityId = 0;
	pub const NoPay: Option<(Balance, AccountId, AccountId)> = None;
}
#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type Block = Block;
	type AccountId = AccountId;
	type Lookup = IdentityLookup<AccountId>;
	type AccountData = pallet_balances::AccountData<Balance>;
}
#[derive_impl(pallet_balances::config_preludes::TestDefaultConfig as pallet_balances::DefaultConfig)]
impl pallet_balances::Config for Test {
	type Balance = Balance;
	type ExistentialDeposit = frame_support::traits::ConstU128<1>;
	type AccountStore = System;
	type FreezeIdentifier = RuntimeFreezeReason;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type MaxFreezes = VariantCountOf<RuntimeFreezeReason>;
}
#[derive_impl(pallet_assets::config_preludes::TestDefaultConfig as pallet_assets::DefaultConfig)]
impl pallet_assets::Config for Test {
	type Balance = Balance;
	type Currency = Balances;
	type CreateOrigin = AsEnsureOriginWithArg<EnsureSigned<AccountId>>;
	type ForceOrigin = EnsureRoot<AccountId>;
	type Freezer = AssetsFreezer;
}
impl pallet_assets_freezer::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
}
impl pallet_scheduler::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeOrigin = RuntimeOrigin;
	type PalletsOrigin = OriginCaller;
	type RuntimeCall = RuntimeCall;
	type MaximumWeight = MaxWeight;
	type ScheduleOrigin = EnsureRoot<AccountId>;
	type OriginPrivilegeCmp = frame_support::traits::EqualPrivilegeOnly;
	type MaxScheduledPerBlock = ConstU32<100>;
	type WeightInfo = ();
	type Preimages = ();
}
impl pallet_nfts::Config for Test {
	type ApprovalsLimit = ();
	type AttributeDepositBase = ();
	type CollectionDeposit = ();
	type CollectionId = CommunityId;
	type CreateOrigin = AsEnsureOriginWithArg<EitherOf<EnsureRootWithSuccess<AccountId, RootAccount>, EnsureSigned<AccountId>>>;
	type Currency = Balances;
	type DepositPerByte = ();
	type Features = ();
	type ForceOrigin = EnsureRoot<AccountId>;
	type ItemAttributesApprovalsLimit = ();
	type ItemDeposit = ();
	type ItemId = MembershipId;
	type KeyLimit = ConstU32<64>;
	type Locker = ();
	type MaxAttributesPerCall = ();
	type MaxDeadlineDuration = ();
	type MaxTips = ();
	type MetadataDepositBase = ();
	type OffchainPublic = AccountPublic;
	type OffchainSignature = MultiSignature;
	type RuntimeEvent = RuntimeEvent;
	type StringLimit = ();
	type ValueLimit = ConstU32<10>;
	type WeightInfo = ();
}
impl pallet_referenda_tracks::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type TrackId = CommunityId;
	type MaxTracks = TrackLimit;
	type AdminOrigin = EnsureRoot<AccountId>;
	type UpdateOrigin = EnsureRoot<AccountId>;
	type WeightInfo = ();
}
// the tracks stand-in takes its currency from the referenda of the runtime
impl pallet_referenda::Config for Test {
	type WeightInfo = ();
	type RuntimeCall = RuntimeCall;
	type RuntimeEvent = RuntimeEvent;
	type Scheduler = Scheduler;
	type Currency = Balances;
	type SubmitOrigin = EnsureSigned<AccountId>;
	type CancelOrigin = EnsureRoot<AccountId>;
	type KillOrigin = EnsureRoot<AccountId>;
	type Slash = ();
	type Votes = u32;
	type Tally = Tally<Test>;
	type SubmissionDeposit = frame_support::traits::ConstU128<2>;
	type MaxQueued = ConstU32<3>;
	type UndecidingTimeout = frame_support::traits::ConstU64<20>;
	type AlarmInterval = frame_support::traits::ConstU64<1>;
	type Tracks = Tracks;
	type Preimages = ();
}
impl pallet_ranked_collective::Config<pallet_ranked_collective::Instance1> for Test {
	type WeightInfo = ();
	type RuntimeEvent = RuntimeEvent;
	type AddOrigin = EnsureNever<()>;
	type RemoveOrigin = EnsureRootWithSuccess<AccountId, ConstU16<65535>>;
	type ExchangeOrigin = EnsureNever<()>;
	type MemberSwappedHandler = ();
	type PromoteOrigin = EnsureRootWithSuccess<AccountId, ConstU16<65535>>;
	type DemoteOrigin = EnsureRootWithSuccess<AccountId, ConstU16<65535>>;
	type Polls = NoPolls;
	type MinRankOfClass = ();
	type VoteWeight = pallet_ranked_collective::Linear;
	type MaxMemberCount = ();
}
impl pallet_communities::Config for Test {
	type PalletId = CommunitiesPalletId;
	type CommunityId = CommunityId;
	type MembershipId = MembershipId;
	type Assets = Assets;
	type AssetsFreezer = AssetsFreezer;
	type Balances = Balances;
	type ItemConfig = pallet_nfts::ItemConfig;
	type MemberMgmt = Nfts;
	type Polls = TablePolls;
	type CreateOrigin = EitherOf<EnsureRootWithSuccess<AccountId, NoPay>, EnsureSignedPays<Test, Price, RootAccount>>;
	type AdminOrigin = EnsureCommunity<Self>;
	type MemberMgmtOrigin = EnsureCommunity<Self>;
	type RuntimeCall = RuntimeCall;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type WeightInfo = ();
}
impl pallet_communities_manager::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type CreateCollection = Nfts;
	type Tracks = Tracks;
	type RankedCollective = Collective;
	type RegisterOrigin = EitherOf<EnsureRootWithSuccess<AccountId, NoPay>, EnsureSignedPays<Test, Price, RootAccount>>;
	type CreateMembershipsOrigin = EnsureRoot<AccountId>;
	type MembershipId = MembershipId;
	type MembershipsManagerCollectionId = ManagerCollection;
	type MembershipsManagerOwner = RootAccount;
	type CreateMemberships = Nfts;
	type WeightInfo = ();
}

#[derive(Default, Clone)]
struct Knobs {
	n: u64,
	nc: u16,
	np: u32,
	na: u32,
	price: Balance,
	tracks: u32,
	manager: bool,
}
thread_local! { static KNOBS: RefCell<Knobs> = Default::default(); }
fn knob<R>(f: impl FnOnce(&Knobs) -> R) -> R {
	KNOBS.with(|k| f(&k.borrow()))
}
pub struct Price;
impl TypedGet for Price {
	type Type = Balance;
	fn get() -> Balance {
		knob(|k| k.price)
	}
}
pub struct TrackLimit;
impl Get<u32> for TrackLimit {
	fn get() -> u32 {
		knob(|k| k.tracks)
	}
}

/// Polls opened and closed by the test, kept in storage.
pub struct TablePolls;
#[derive(Encode, Decode, Clone)]
enum Poll {
	Ongoing(Tally<Test>, CommunityId),
	Completed(u64, bool),
}
fn poll_key(p: u32) -> Vec<u8> {
	(b":polls:".to_vec(), p).encode()
}
fn poll(p: u32) -> Option<Poll> {
	sp_core::externalities::get(&poll_key(p)).map(|v| Poll::decode(&mut &v[..]).expect("poll"))
}
impl TablePolls {
	fn put(p: u32, v: Poll) {
		sp_core::externalities::set(&poll_key(p), v.encode())
	}
}
impl Polling<Tally<Test>> for TablePolls {
	type Index = u32;
	type Votes = u32;
	type Class = CommunityId;
	type Moment = u64;
	fn classes() -> Vec<CommunityId> {
		(1..=knob(|k| k.nc)).collect()
	}
	fn as_ongoing(p: u32) -> Option<(Tally<Test>, CommunityId)> {
		match poll(p) {
			Some(Poll::Ongoing(t, c)) => Some((t, c)),
			_ => None,
		}
	}
	fn access_poll<R>(p: u32, f: impl FnOnce(PollStatus<&mut Tally<Test>, u64, CommunityId>) -> R) -> R {
		match poll(p) {
			None => f(PollStatus::None),
			Some(Poll::Completed(m, b)) => f(PollStatus::Completed(m, b)),
			Some(Poll::Ongoing(mut t, c)) => {
				let r = f(PollStatus::Ongoing(&mut t, c));
				Self::put(p, Poll::Ongoing(t, c));
				r
			}
		}
	}
	fn try_access_poll<R>(p: u32, f: impl FnOnce(PollStatus<&mut Tally<Test>, u64, CommunityId>) -> Result<R, DispatchError>) -> Result<R, DispatchError> {
		match poll(p) {
			None => f(PollStatus::None),
			Some(Poll::Completed(m, b)) => f(PollStatus::Completed(m, b)),
			Some(Poll::Ongoing(mut t, c)) => {
				let r = f(PollStatus::Ongoing(&mut t, c))?;
				Self::put(p, Poll::Ongoing(t, c));
				Ok(r)
			}
		}
	}
}
pub struct NoPolls;
impl<T> Polling<T> for NoPolls {
	type Index = u32;
	type Votes = u32;
	type Class = u16;
	type Moment = u64;
	fn classes() -> Vec<u16> {
		vec![]
	}
	fn as_ongoing(_: u32) -> Option<(T, u16)> {
		None
	}
	fn access_poll<R>(_: u32, f: impl FnOnce(PollStatus<&mut T, u64, u16>) -> R) -> R {
		f(PollStatus::None)
	}
	fn try_access_poll<R>(_: u32, f: impl FnOnce(PollStatus<&mut T, u64, u16>) -> Result<R, DispatchError>) -> Result<R, DispatchError> {
		f(PollStatus::None)
	}
}

// ---- numbers and names ----
fn u(v: &Value) -> u64 {
	v.as_u64().unwrap_or_else(|| panic!("harness: number expected, got {v}"))
}
fn list(v: &Value) -> &Vec<Value> {
	v.as_array().unwrap_or_else(|| panic!("harness: list expected, got {v}"))
}
fn wide(b: u128) -> Value {
	if (b >> 61) > 0 { json!([-1, 0]) } else { json!([(b >> 30) as u64, (b & 0x3fff_ffff) as u64]) }
}
fn amount(v: &Value) -> u128 {
	((u(&v[0]) as u128) << 30) + u(&v[1]) as u128
}
fn community_account(c: u16) -> AccountId {
	Communities::community_account(&c)
}
fn account(n: u64) -> AccountId {
	match n {
		98 => RootAccount::get(),
		101..=199 => community_account((n - 100) as u16),
		_ => AccountId::new([n as u8; 32]),
	}
}
fn name(a: &AccountId) -> u64 {
	if *a == RootAccount::get() {
		return 98;
	}
	if let Some(c) = (1..=knob(|k| k.nc).max(3)).find(|c| community_account(*c) == *a) {
		return 100 + c as u64;
	}
	let b: &[u8] = a.as_ref();
	if b.iter().all(|x| *x == b[0]) { b[0] as u64 } else { 0 }
}
fn origin(n: u64) -> RuntimeOrigin {
	match n {
		0 => RuntimeOrigin::none(),
		99 => RuntimeOrigin::root(),
		201..=299 => pallet_communities::Origin::<Test>::new((n - 200) as u16).into(),
		_ => RuntimeOrigin::signed(account(n)),
	}
}
fn origin_name(o: &OriginCaller) -> u64 {
	match o {
		OriginCaller::system(frame_system::RawOrigin::Root) => 99,
		OriginCaller::system(frame_system::RawOrigin::Signed(a)) => name(a),
		OriginCaller::system(_) => 0,
		o => (1..=knob(|k| k.nc).max(3)).map(|c| 200 + c as u64).find(|n| origin(*n).caller() == o).unwrap_or(0),
	}
}
type VoteT = Vote<u32, Balance, Balance>;
type MethodT = DecisionMethod<u32, Balance>;
fn show_vote(v: &VoteT) -> (bool, &'static str, u32, Value) {
	match v {
		Vote::AssetBalance(say, a, amt) => (*say, "asset", *a, wide(*amt)),
		Vote::NativeBalance(say, amt) => (*say, "native", 0, wide(*amt)),
		Vote::Standard(say) => (*say, "std", 0, wide(0)),
	}
}
fn read_vote(k: &Value) -> VoteT {
	let say = k["say"].as_bool().expect("say");
	match k["k"].as_str().expect("kind") {
		"asset" => Vote::AssetBalance(say, u(&k["a"]) as u32, amount(&k["amt"])),
		"native" => Vote::NativeBalance(say, amount(&k["amt"])),
		_ => Vote::Standard(say),
	}
}
fn show_method(m: &MethodT) -> Value {
	match m {
		DecisionMethod::Membership => json!({"k": "std", "a": 0, "min": [0, 0]}),
		DecisionMethod::Rank => json!({"k": "rank", "a": 0, "min": [0, 0]}),
		DecisionMethod::NativeToken => json!({"k": "native", "a": 0, "min": [0, 0]}),
		DecisionMethod::CommunityAsset(a, min) => json!({"k": "asset", "a": a, "min": wide(*min)}),
	}
}
fn read_method(m: &Value) -> MethodT {
	match m["k"].as_str().expect("method") {
		"std" => DecisionMethod::Membership,
		"rank" => DecisionMethod::Rank,
		"native" => DecisionMethod::NativeToken,
		_ => DecisionMethod::CommunityAsset(u(&m["a"]) as u32, amount(&m["min"])),
	}
}

// ---- what is in storage under the pallet's items, without going through its code ----
fn entries(item: &str) -> Vec<(Vec<u8>, Vec<u8>)> {
	let mut p = sp_core::twox_128(b"Communities").to_vec();
	p.extend(sp_core::twox_128(item.as_bytes()));
	sp_core::externalities::snapshot().range(p.clone()..).take_while(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k[32..].to_vec(), v.clone())).collect()
}
/// the keys of an entry whose hashers keep the key
fn key<A: Decode>(k: &mut &[u8], hash: usize) -> A {
	*k = &k[hash..];
	A::decode(k).expect("harness: key")
}

fn method(c: u16) -> MethodT {
	entries("CommunityDecisionMethod")
		.into_iter()
		.find(|(k, _)| key::<u16>(&mut &k[..], k.len() - 2) == c)
		.map(|(_, v)| MethodT::decode(&mut &v[..]).expect("harness: method"))
		.unwrap_or_default()
}
fn tail(k: &[u8], width: usize) -> &[u8] {
	&k[k.len() - width..]
}

fn items() -> Vec<(u16, u32, u64)> {
	let mut v: Vec<_> = pallet_nfts::Item::<Test>::iter().map(|(c, m, o)| (c, m, name(&o))).collect();
	v.sort();
	v
}

fn world() -> Value {
	use fungible::InspectFreeze as _;
	use fungibles::InspectFreeze as _;
	if knob(|k| k.manager) {
		return manager_world();
	}
	let (n, nc, np, na) = knob(|k| (k.n, k.nc, k.np, k.na));
	let mut comm = vec!["none"; nc as usize];
	for (k, v) in entries("Info") {
		let c = u16::decode(&mut tail(&k, 2)).expect("harness: id");
		let i = CommunityInfo::decode(&mut &v[..]).expect("harness: info");
		if (1..=nc).contains(&c) {
			comm[c as usize - 1] = if i.state == CommunityState::Active { "active" } else { "blocked" };
		}
	}
	let mut adm: Vec<_> = entries("CommunityIdFor")
		.into_iter()
		.map(|(k, v)| {
			// the hasher of this map keeps the key after 16 or 8 bytes
			let o = [16, 8, 0].iter().find_map(|h| {
				let mut k = k.get(*h..)?;
				let o = OriginCaller::decode(&mut k).ok()?;
				k.is_empty().then_some(o)
			});
			(o.map(|o| origin_name(&o)).unwrap_or(0), u16::decode(&mut &v[..]).expect("harness: id"))
		})
		.collect();
	adm.sort();
	let reason: RuntimeFreezeReason = pallet_communities::FreezeReason::VoteCasted.into();
	let mut votes: Vec<_> = entries("CommunityVotes")
		.into_iter()
		.map(|(k, v)| {
			let m = u32::decode(&mut tail(&k, 4)).expect("harness: key");
			let p = (1..=np).find(|p| k.windows(4).any(|w| w == p.encode()) && poll_prefix(&k, *p)).unwrap_or(0);
			let (vote, who) = <(VoteT, AccountId)>::decode(&mut &v[..]).expect("harness: vote");
			let (say, kind, a, amt) = show_vote(&vote);
			(p, m, json!({"p": p, "m": m, "who": name(&who), "say": say, "k": kind, "a": a, "amt": amt}))
		})
		.collect();
	votes.sort_by_key(|v| (v.0, v.1));
	let mut locks: Vec<_> = entries("CommunityVoteLocks")
		.into_iter()
		.map(|(k, v)| {
			let p = u32::decode(&mut tail(&k, 4)).expect("harness: key");
			let who = (1..=n).chain(101..=100 + nc as u64).find(|x| k.windows(32).any(|w| w == account(*x).encode())).unwrap_or(0);
			let vote = VoteT::decode(&mut &v[..]).expect("harness: lock");
			let (_, kind, a, amt) = show_vote(&vote);
			(who, p, json!({"who": who, "p": p, "k": kind, "a": a, "amt": amt}))
		})
		.collect();
	locks.sort_by_key(|l| (l.0, l.1));
	let users: Vec<u64> = (1..=n).collect();
	json!({
		"comm": comm,
		"adm": adm.into_iter().map(|(o, c)| json!({"o": o, "c": c})).collect::<Vec<_>>(),
		"meth": (1..=nc).map(|c| show_method(&method(c))).collect::<Vec<_>>(),
		"items": items().into_iter().map(|(c, m, o)| json!({"m": m, "c": c, "o": o, "r": <Nfts as fc_traits_memberships::Rank<AccountId, pallet_nfts::ItemConfig>>::rank_of(&c, &m).map(|r| r.into()).unwrap_or(0u32)})).collect::<Vec<_>>(),
		"tot": (1..=nc).map(|c| json!({"n": Nfts::members_total(&c), "r": <Nfts as fc_traits_memberships::Rank<AccountId, pallet_nfts::ItemConfig>>::ranks_total(&c)})).collect::<Vec<_>>(),
		"polls": (1..=np).map(|p| match poll(p) {
			None => json!({"st": "none", "c": 0, "ayes": [0, 0], "nays": [0, 0], "bare": [0, 0]}),
			Some(Poll::Completed(c, b)) => json!({"st": if b { "yes" } else { "no" }, "c": c, "ayes": [0, 0], "nays": [0, 0], "bare": [0, 0]}),
			Some(Poll::Ongoing(t, c)) => {
				let (ayes, nays, bare) = <(u32, u32, u32)>::decode(&mut &t.encode()[..]).expect("harness: tally");
				json!({"st": "open", "c": c, "ayes": wide(ayes as u128), "nays": wide(nays as u128), "bare": wide(bare as u128)})
			}
		}).collect::<Vec<_>>(),
		"votes": votes.into_iter().map(|v| v.2).collect::<Vec<_>>(),
		"locks": locks.into_iter().map(|v| v.2).collect::<Vec<_>>(),
		"bal": users.iter().map(|x| wide(<Balances as fungible::Inspect<AccountId>>::total_balance(&account(*x)))).collect::<Vec<_>>(),
		"cbal": (1..=nc).map(|c| wide(<Balances as fungible::Inspect<AccountId>>::total_balance(&community_account(c)))).collect::<Vec<_>>(),
		"rbal": wide(<Balances as fungible::Inspect<AccountId>>::total_balance(&RootAccount::get())),
		"frz": users.iter().map(|x| wide(Balances::balance_frozen(&reason, &account(*x)))).collect::<Vec<_>>(),
		"abal": (1..=na).map(|a| users.iter().map(|x| wide(Assets::balance(a, account(*x)))).collect::<Vec<_>>()).collect::<Vec<_>>(),
		"afrz": (1..=na).map(|a| users.iter().map(|x| wide(AssetsFreezer::balance_frozen(a, &reason, &account(*x)))).collect::<Vec<_>>()).collect::<Vec<_>>(),
		// what the tally of each open poll comes to
		"frac": (1..=np).map(|p| match poll(p) {
			Some(Poll::Ongoing(t, c)) => caught(|| json!([t.approval(c).deconstruct(), t.support(c).deconstruct()])).unwrap_or(json!([-1, -1])),
			_ => json!([]),
		}).collect::<Vec<_>>(),
		// what the pallet answers when asked about memberships
		"ask": (1..=nc).map(|c| users.iter().map(|x| {
			let mut ms = Communities::get_memberships(c, &account(*x));
			ms.sort();
			use frame_support::traits::EnsureOriginWithArg;
			let may = pallet_communities::origin::EnsureMember::<Test>::try_origin(origin(*x), &c).is_ok();
			json!({"is": Communities::is_member(&c, &account(*x)), "may": may, "ms": ms.iter().map(|m| json!({"m": m, "r": Into::<u32>::into(Communities::member_rank(&c, m))})).collect::<Vec<_>>()})
		}).collect::<Vec<_>>()).collect::<Vec<_>>(),
		// the origins the pallet takes for a community's
		"ctl": (1..=n).chain([0, 98, 99]).chain(101..=100 + nc as u64).chain(201..=200 + nc as u64).filter_map(|o| {
			use frame_support::traits::EnsureOrigin;
			EnsureCommunity::<Test>::try_origin(origin(o)).ok().map(|c| json!({"o": o, "c": c}))
		}).collect::<Vec<_>>(),
	})
}
fn poll_prefix(k: &[u8], p: u32) -> bool {
	// first key: the poll, after its hash; second: the membership
	let rest = &k[..k.len() - 4];
	[16usize, 8, 0].iter().any(|h| rest.len() >= h + 4 && rest.len() - (h + 4) <= 16 && rest[*h..h + 4] == p.encode()[..])
}

/// What the communities manager sets up.
fn manager_world() -> Value {
	use fungible::Inspect as _;
	use pallet_referenda::TracksInfo;
	let (n, nc) = knob(|k| (k.n, k.nc));
	let comm: Vec<_> = (1..=nc)
		.map(|c| {
			let st = entries("Info").into_iter().find(|(k, _)| tail(k, 2) == c.encode()).map(|(_, v)| CommunityInfo::decode(&mut &v[..]).expect("harness: info").state);
			match st {
				None => "none",
				Some(CommunityState::Active) => "active",
				Some(CommunityState::Blocked) => "blocked",
			}
		})
		.collect();
	let mut adm: Vec<_> = (1..=n)
		.chain(101..=100 + nc as u64)
		.chain(201..=200 + nc as u64)
		.filter_map(|o| {
			let e = origin(o).caller().encode();
			entries("CommunityIdFor").into_iter().find(|(k, _)| k.ends_with(&e)).map(|(_, v)| (o, u16::decode(&mut &v[..]).expect("harness: id")))
		})
		.collect();
	adm.sort();
	json!({
		"comm": comm,
		"adm": adm.into_iter().map(|(o, c)| json!({"o": o, "c": c})).collect::<Vec<_>>(),
		"entries": [entries("Info").len(), entries("CommunityIdFor").len()],
		"meth": (1..=nc).map(|c| show_method(&method(c))).collect::<Vec<_>>(),
		"bal": (1..=n).map(|x| wide(Balances::total_balance(&account(x)))).collect::<Vec<_>>(),
		"rbal": wide(Balances::total_balance(&RootAccount::get())),
		"cbal": (1..=nc).map(|c| wide(Balances::total_balance(&community_account(c)))).collect::<Vec<_>>(),
		"coll": (0..=nc).map(|c| Nfts::collection_owner(&c).map(|o| name(&o)).unwrap_or(0)).collect::<Vec<_>>(),
		"tracks": tracks(),
		"governs": (1..=nc).map(|c| Tracks::track_for(origin(200 + c as u64).caller()).map(|t| t as i64).unwrap_or(-1)).collect::<Vec<_>>(),
		"inducted": (1..=nc).map(|c| pallet_ranked_collective::Members::<Test, pallet_ranked_collective::Instance1>::get(community_account(c)).map(|r| r as i64).unwrap_or(-1)).collect::<Vec<_>>(),
		"items": items().into_iter().map(|(c, m, o)| json!({"c": c, "m": wide(m as u128), "o": o,
			"price": pallet_nfts::ItemPriceOf::<Test>::get(c, m).map(|p| json!([wide(p.0), p.1.map(|b| name(&b)).unwrap_or(0)])).unwrap_or(json!([]))})).collect::<Vec<_>>(),
	})
}
fn tracks() -> Vec<Value> {
	use pallet_referenda::TracksInfo;
	let mut ts: Vec<(u16, Value)> = vec![];
	for t in Tracks::tracks() {
		let i = &t.info;
		let name: Vec<u8> = i.name.iter().copied().take_while(|b| *b != 0).collect();
		ts.push((
			t.id,
			json!({"id": t.id, "name": name, "max": i.max_deciding, "dep": wide(i.decision_deposit), "prep": i.prepare_period, "dec": i.decision_period,
				"conf": i.confirm_period, "enact": i.min_enactment_period, "app": curve(&i.min_approval), "sup": curve(&i.min_support)}),
		));
	}
	ts.sort_by_key(|t| t.0);
	ts.into_iter().map(|t| t.1).collect()
}
fn curve(c: &pallet_referenda::Curve) -> Value {
	match c {
		pallet_referenda::Curve::LinearDecreasing { length, floor, ceil } => json!([length.deconstruct(), floor.deconstruct(), ceil.deconstruct()]),
		_ => json!([]),
	}
}

fn events() -> Value {
	use pallet_communities::Event as E;
	let mut out = vec![];
	for e in System::events() {
		out.push(match e.event {
			RuntimeEvent::Communities(e) => match e {
				E::CommunityCreated { id, origin } => json!({"k": "created", "c": id, "o": origin_name(&origin)}),
				E::AdminOriginSet { id, .. } => json!({"k": "admin", "c": id}),
				E::DecisionMethodSet { id } => json!({"k": "method", "c": id}),
				E::MemberAdded { who, membership_id } => json!({"k": "added", "x": name(&who), "m": membership_id}),
				E::MemberRemoved { who, membership_id } => json!({"k": "removed", "x": name(&who), "m": membership_id}),
				E::MembershipRankUpdated { membership_id, rank } => json!({"k": "rank", "m": membership_id, "r": Into::<u32>::into(rank)}),
				E::VoteCasted { who, poll_index, vote } => {
					let (say, k, a, amt) = show_vote(&vote);
					json!({"k": "voted", "x": name(&who), "p": poll_index, "say": say, "kind": k, "a": a, "amt": amt})
				}
				E::VoteRemoved { who, poll_index } => json!({"k": "unvoted", "x": name(&who), "p": poll_index}),
				_ => json!({"k": "other"}),
			},
			RuntimeEvent::CommunitiesManager(e) => match e {
				pallet_communities_manager::Event::CommunityRegistered { id } => json!({"k": "registered", "c": id}),
				pallet_communities_manager::Event::MembershipsCreated { starting_at, amount } => json!({"k": "minted", "m": wide(starting_at as u128), "n": amount}),
				_ => json!({"k": "other"}),
			},
			RuntimeEvent::System(frame_system::Event::Remarked { sender, .. }) => json!({"k": "remarked", "x": name(&sender)}),
			_ => continue,
		});
	}
	out.into()
}

fn collection(c: u16, owner: &AccountId) {
	Nfts::create_collection_with_id(c, owner, owner, &pallet_nfts::CollectionConfig { settings: Default::default(), max_supply: None, mint_settings: Default::default() })
		.unwrap_or_else(|e| panic!("harness: collection {e:?}"));
}

/// The world described by `c.init`.
fn start(c: &Value) {
	use fungibles::{Create, Mutate as _};
	sp_core::externalities::restore(Default::default());
	let w = &c["init"];
	KNOBS.with(|k| {
		*k.borrow_mut() = Knobs {
			n: list(&w["bal"]).len() as u64,
			nc: list(&w["comm"]).len() as u16,
			np: w["polls"].as_array().map(|p| p.len()).unwrap_or(0) as u32,
			na: w["abal"].as_array().map(|a| a.len()).unwrap_or(0) as u32,
			price: amount(&c["price"]),
			tracks: c["tracks"].as_u64().unwrap_or(1000) as u32,
			manager: c["manager"].as_bool().unwrap_or(false),
		}
	});
	let (nc, na) = knob(|k| (k.nc, k.na));
	System::set_block_number(1);
	let mint = |x: AccountId, b: &Value| {
		if amount(b) > 0 {
			<Balances as fungible::Mutate<AccountId>>::mint_into(&x, amount(b)).unwrap_or_else(|e| panic!("harness: balance {e:?}"));
		}
	};
	for (x, b) in list(&w["bal"]).iter().enumerate() {
		mint(account(x as u64 + 1), b);
	}
	for (x, b) in list(&w["cbal"]).iter().enumerate() {
		mint(community_account(x as u16 + 1), b);
	}
	mint(RootAccount::get(), &w["rbal"]);
	for a in 1..=na {
		<Assets as Create<AccountId>>::create(a, RootAccount::get(), true, 1).unwrap_or_else(|e| panic!("harness: asset {e:?}"));
		for (x, b) in list(&w["abal"][a as usize - 1]).iter().enumerate() {
			if amount(b) > 0 {
				Assets::mint_into(a, &account(x as u64 + 1), amount(b)).unwrap_or_else(|e| panic!("harness: asset balance {e:?}"));
			}
		}
	}
	collection(0, &RootAccount::get());
	if knob(|k| k.manager) {
		// what may stand in the way of a registration
		for c in list(&c["collections"]) {
			collection(u(c) as u16, &account(1));
		}
		for c in list(&c["inducted"]) {
			use frame_support::traits::RankedMembers;
			<Collective as RankedMembers>::induct(&account(100 + u(c))).unwrap_or_else(|e| panic!("harness: induct {e:?}"));
		}
		for c in list(&c["tracked"]) {
			let info = track("was here");
			Tracks::insert(RuntimeOrigin::root(), u(&c[0]) as u16, info, origin(u(&c[1])).caller().clone()).unwrap_or_else(|e| panic!("harness: track {e:?}"));
		}
		for m in list(&c["taken"]) {
			Nfts::mint_into(&0, &(amount(&m["m"]) as u32), &account(u(&m["o"])), &Default::default(), true).unwrap_or_else(|e| panic!("harness: item {e:?}"));
		}
		System::reset_events();
		return;
	}
	for c in 1..=nc {
		collection(c, &community_account(c));
	}
	for (i, s) in list(&w["comm"]).iter().enumerate() {
		let c = i as u16 + 1;
		if s == "none" {
			continue;
		}
		let o = list(&w["adm"]).iter().find(|a| u(&a["c"]) == c as u64).map(|a| u(&a["o"])).unwrap_or_else(|| panic!("harness: admin of {c}"));
		Communities::register(origin(o).caller(), &c, None).unwrap_or_else(|e| panic!("harness: community {e:?}"));
		let m = read_method(&w["meth"][i]);
		if !matches!(m, DecisionMethod::Membership) {
			Communities::set_decision_method(origin(200 + c as u64), c, m).unwrap_or_else(|e| panic!("harness: method {e:?}"));
		}
	}
	for i in list(&w["items"]) {
		let (m, c, o) = (u(&i["m"]) as u32, u(&i["c"]) as u16, u(&i["o"]));
		if c == 0 {
			Nfts::mint_into(&0, &m, &account(o), &Default::default(), true).unwrap_or_else(|e| panic!("harness: item {e:?}"));
		} else {
			Nfts::mint_into(&0, &m, &community_account(c), &Default::default(), true).unwrap_or_else(|e| panic!("harness: item {e:?}"));
			<Nfts as fc_traits_memberships::Manager<AccountId, pallet_nfts::ItemConfig>>::assign(&c, &m, &account(o)).unwrap_or_else(|e| panic!("harness: member {e:?}"));
			let r = fc_traits_memberships::GenericRank::from(u(&i["r"]) as u8);
			<Nfts as fc_traits_memberships::Rank<AccountId, pallet_nfts::ItemConfig>>::set_rank(&c, &m, r).unwrap_or_else(|e| panic!("harness: rank {e:?}"));
		}
	}
	for (i, s) in list(&w["comm"]).iter().enumerate() {
		if s == "blocked" {
			Communities::force_state(&(i as u16 + 1), CommunityState::Blocked);
		}
	}
	for (i, p) in list(&w["polls"]).iter().enumerate() {
		if p["st"] == "open" {
			TablePolls::put(i as u32 + 1, Poll::Ongoing(Tally::<Test>::default(), u(&p["c"]) as u16));
		}
	}
	System::reset_events();
}
fn track(name: &str) -> pallet_referenda::TrackInfo<Balance, u64> {
	let flat = pallet_referenda::Curve::LinearDecreasing { length: Perbill::from_percent(100), floor: Perbill::from_percent(10), ceil: Perbill::from_percent(90) };
	pallet_referenda::TrackInfo {
		name: sp_runtime::str_array(name),
		max_deciding: 7,
		decision_deposit: 5,
		prepare_period: 6,
		decision_period: 50,
		confirm_period: 8,
		min_enactment_period: 9,
		min_approval: flat.clone(),
		min_support: flat,
	}
}

fn read_call(k: &Value) -> RuntimeCall {
	use pallet_communities::Call as C;
	let m = || u(&k["m"]) as u32;
	let p = || u(&k["p"]) as u32;
	match k["op"].as_str().expect("op") {
		"create" => C::create { admin_origin: origin(u(&k["o"])).caller().clone(), community_id: u(&k["c"]) as u16 }.into(),
		"setadm" => C::set_admin_origin { admin_origin: origin(u(&k["o"])).caller().clone() }.into(),
		"add" => C::add_member { who: account(u(&k["x"])) }.into(),
		"rem" => C::remove_member { who: account(u(&k["x"])), membership_id: m() }.into(),
		"pro" => C::promote { membership_id: m() }.into(),
		"dem" => C::demote { membership_id: m() }.into(),
		"meth" => C::set_decision_method { community_id: u(&k["c"]) as u16, decision_method: read_method(&k["me"]) }.into(),
		"vote" => C::vote { membership_id: m(), poll_index: p(), vote: read_vote(k) }.into(),
		"unvote" => C::remove_vote { membership_id: m(), poll_index: p() }.into(),
		"unlock" => C::unlock { poll_index: p() }.into(),
		"as" => C::dispatch_as_account { call: Box::new(read_call(&k["in"])) }.into(),
		// other pallets' calls
		"remark" => frame_system::Call::remark_with_event { remark: vec![1] }.into(),
		"store" => frame_system::Call::set_storage { items: vec![(b":x".to_vec(), vec![1])] }.into(),
		"give" => pallet_balances::Call::transfer_allow_death { dest: account(u(&k["x"])), value: amount(&k["amt"]) }.into(),
		"agive" => pallet_assets::Call::transfer { id: u(&k["a"]) as u32, target: account(u(&k["x"])), amount: amount(&k["amt"]) }.into(),
		"hand" => pallet_nfts::Call::transfer { collection: u(&k["c"]) as u16, item: m(), dest: account(u(&k["x"])) }.into(),
		"reg" => pallet_communities_manager::Call::register {
			community_id: u(&k["c"]) as u16,
			name: drvlib::bytes(&k["name"]).try_into().unwrap_or_else(|_| panic!("harness: name")),
			first_admin: account(u(&k["x"])),
			maybe_decision_method: k["me"].get(0).map(read_method),
			maybe_track_info: k["tr"].as_bool().expect("tr").then(|| track("given")),
		}
		.into(),
		"mkm" => pallet_communities_manager::Call::create_memberships { amount: u(&k["n"]) as u16, starting_at: amount(&k["m"]) as u32, price: amount(&k["price"]) }.into(),
		op => panic!("harness: unknown operation {op}"),
	}
}

fn act(k: &Value) -> Result<(), String> {
	System::reset_events();
	match k["op"].as_str().expect("op") {
		"block" => Communities::force_state(&(u(&k["c"]) as u16), CommunityState::Blocked),
		"free" => Communities::force_state(&(u(&k["c"]) as u16), CommunityState::Active),
		"open" => TablePolls::put(u(&k["p"]) as u32, Poll::Ongoing(Tally::<Test>::default(), u(&k["c"]) as u16)),
		"close" => {
			if let Some(Poll::Ongoing(_, c)) = poll(u(&k["p"]) as u32) {
				TablePolls::put(u(&k["p"]) as u32, Poll::Completed(c as u64, k["yes"].as_bool().expect("yes")))
			}
		}
		_ => {
			let call = read_call(k);
			// a call travels encoded
			let bytes = call.encode();
			let call = RuntimeCall::decode(&mut &bytes[..]).map_err(|e| format!("decode: {e}"))?;
			return call.dispatch(origin(u(&k["who"]))).map(|_| ()).map_err(|e| format!("{:?}", e.error));
		}
	}
	Ok(())
}

/// A tree of worlds being walked. With each recorded vote goes the method and rank it was cast
/// under, remembered here: the pallet itself does not keep them.
#[derive(Default)]
pub struct Session {
	cfg: Value,
	stack: Vec<(sp_core::externalities::Map, Value)>,
}
fn remember(pre: &Value, call: &Value, ok: bool, post: &mut Value) {
	let Some(votes) = post.get_mut("votes").and_then(|v| v.as_array_mut()) else { return };
	for v in votes {
		let fresh = ok && call["op"] == "vote" && call["m"] == v["m"] && call["p"] == v["p"];
		let old = pre["votes"].as_array().and_then(|o| o.iter().find(|o| ["p", "m", "who", "say", "k", "a", "amt"].iter().all(|f| o[f] == v[f])));
		let (ck, cr) = match old {
			Some(o) if !fresh => (o["ck"].clone(), o["cr"].clone()),
			_ => {
				let c = pre["polls"][(v["p"].as_u64().unwrap_or(1).max(1) - 1) as usize]["c"].as_u64().unwrap_or(0);
				let ck = if c > 0 { pre["meth"][c as usize - 1]["k"].clone() } else { json!("std") };
				let cr = pre["items"].as_array().and_then(|i| i.iter().find(|i| i["m"] == v["m"] && i["c"] == c).map(|i| i["r"].clone())).unwrap_or(json!(0));
				(ck, cr)
			}
		};
		v["ck"] = ck;
		v["cr"] = cr;
	}
}
impl Session {
	pub fn handle(&mut self, r: &Value) -> Value {
		if let Some(c) = r.get("tally") {
			return tally(c);
		}
		if let Some(c) = r.get("cfg") {
			start(c);
			self.cfg = c.clone();
			self.cfg.as_object_mut().expect("cfg").remove("init");
			self.stack = vec![(sp_core::externalities::snapshot(), world())];
			return json!({"cfg": 0});
		}
		let d = u(&r["d"]) as usize;
		self.stack.truncate(d + 1);
		let (snap, pre) = self.stack.last().cloned().expect("depth");
		sp_core::externalities::restore(snap);
		let res = caught(|| act(&r["call"]));
		let panic = res.as_ref().err().cloned();
		if let Some(m) = &panic {
			if m.starts_with("harness") {
				eprintln!("{m}");
				std::process::exit(2);
			}
		}
		let res = res.unwrap_or_else(|e| Err(format!("panic: {e}")));
		let mut post = caught(world).unwrap_or_else(|e| json!({"unreadable": e}));
		remember(&pre, &r["call"], res.is_ok(), &mut post);
		let ev = caught(events).unwrap_or(json!([]));
		self.stack.push((sp_core::externalities::snapshot(), post.clone()));
		json!({"k": "step", "cfg": self.cfg, "pre": pre, "call": r["call"], "ok": res.is_ok(),
			"err": res.err().unwrap_or_default(), "post": post, "ev": ev, "panic": panic.is_some()})
	}
	/// one more call after the ones made so far
	pub fn then(&mut self, call: Value) -> Value {
		self.handle(&json!({"d": self.stack.len() - 1, "call": call}))
	}
	/// the world as it now is
	pub fn now(&self) -> Value {
		self.stack.last().expect("started").1.clone()
	}
}

/// What the proportions of a given tally come to, for an electorate set up by the given method.
fn tally(t: &Value) -> Value {
	use fungible::Mutate as _;
	use fungibles::{Create, Mutate as _};
	sp_core::externalities::restore(Default::default());
	KNOBS.with(|k| *k.borrow_mut() = Knobs { n: 1, nc: 1, np: 1, na: 1, tracks: 10, ..Default::default() });
	System::set_block_number(1);
	let e = amount(&t["elect"]);
	let c = community_account(1);
	Communities::register(RuntimeOrigin::root().caller(), &1, None).unwrap_or_else(|e| panic!("harness: {e:?}"));
	collection(1, &c);
	let me = read_method(&json!({"k": t["me"], "a": 1, "min": [0, 0]}));
	match me {
		DecisionMethod::NativeToken => {
			if e > 0 {
				Balances::mint_into(&account(1), e).unwrap_or_else(|e| panic!("harness: {e:?}"));
			}
		}
		DecisionMethod::CommunityAsset(a, _) => {
			<Assets as Create<AccountId>>::create(a, RootAccount::get(), true, 1).unwrap_or_else(|e| panic!("harness: {e:?}"));
			if e > 0 {
				Assets::mint_into(a, &account(1), e).unwrap_or_else(|e| panic!("harness: {e:?}"));
			}
		}
		DecisionMethod::Membership => {
			Nfts::set_collection_attribute(&1, b"membership_member_total", &(e as u32).encode()).unwrap_or_else(|e| panic!("harness: {e:?}"));
		}
		DecisionMethod::Rank => {
			Nfts::set_collection_attribute(&1, b"membership_member_rank_total", &(e as u32).encode()).unwrap_or_else(|e| panic!("harness: {e:?}"));
		}
	}
	if !matches!(me, DecisionMethod::Membership) {
		Communities::set_decision_method(origin(201), 1, me).unwrap_or_else(|e| panic!("harness: {e:?}"));
	}
	let bytes = (amount(&t["ayes"]) as u32, amount(&t["nays"]) as u32, amount(&t["bare"]) as u32).encode();
	let tally = Tally::<Test>::decode(&mut &bytes[..]).unwrap_or_else(|e| panic!("harness: {e:?}"));
	let res = caught(|| (tally.approval(1).deconstruct(), tally.support(1).deconstruct(), VoteTally::<u32, u16>::ayes(&tally, 1)));
	let panic = res.is_err();
	let (app, sup, ayes) = res.unwrap_or_default();
	json!({"k": "tally", "t": t, "app": app, "sup": sup, "says": wide(ayes as u128), "panic": panic})
}

pub fn main() {
	quiet_panics();
	let mut out = std::io::BufWriter::new(std::io::stdout().lock());
	let mut s = Session::default();
	for line in std::io::stdin().lock().lines() {
		let line = line.expect("stdin");
		if !line.is_empty() {
			let r = drvlib::serde_json::from_str(&line).expect("request is JSON");
			writeln!(out, "{}", s.handle(&r)).expect("stdout");
		}
	}
	out.flush().expect("stdout");
}
